#define GFWX_NS GFWX_F
#define FN(x) ref_##x
#include "oracle.inc"

using G::Bits; using G::Image;

// 16 bit numbers that notice when 16 bits do not suffice (for a sum of two, if the filter adds them in 16 bits)
static thread_local bool narrow_sums, narrow_fits;
struct Narrow
{
	int v;
	Narrow() : v(0) { }
	Narrow(int x) : v(x) { check(x); }
	operator int() const { return v; }
	Narrow &operator+=(int x) { check(v += x); return *this; }
	Narrow &operator-=(int x) { check(v -= x); return *this; }
	static void check(int x) { if (x != (int16_t)x) narrow_fits = false; }
};
static int operator+(Narrow const &a, Narrow const &b) { if (narrow_sums) Narrow::check(a.v + b.v); return a.v + b.v; }

extern "C" {
void ref_lift(int16_t *d, int w, int h, int filter) { Image<int16_t> im(d, w, h); G::lift(im, 0, 0, w, h, 1, filter); }
void ref_unlift(int16_t *d, int w, int h, int filter) { Image<int16_t> im(d, w, h); G::unlift(im, 0, 0, w, h, 1, filter); }
int ref_unlift_fits(int16_t const *d, int w, int h, int filter)
{
	std::vector<Narrow> a(d, d + (size_t)w * h);
	Image<Narrow> im(a.data(), w, h);
	narrow_sums = filter == 0;
	narrow_fits = true;
	G::unlift(im, 0, 0, w, h, 1, filter);
	return narrow_fits;
}
void ref_quantize(int16_t *d, int w, int h, int q, int minq, int maxq) { Image<int16_t> im(d, w, h); G::quantize(im, 0, 0, w, h, 1, q, minq, maxq); }
void ref_dequantize(int16_t *d, int w, int h, int q, int minq, int maxq) { Image<int16_t> im(d, w, h); G::dequantize(im, 0, 0, w, h, 1, q, minq, maxq); }
// returns number of words, -1 on overflow
long ref_encode_block(int16_t *d, int w, int h, int x0, int y0, int x1, int y1, int step, int scheme, int q, int dc, int chroma, uint32_t *out, long words)
{
	Image<int16_t> im(d, w, h);
	Bits s(out, out + words);
	G::encode(im, s, x0, y0, x1, y1, step, scheme, q, dc != 0, chroma != 0);
	s.flushWriteWord();
	return s.indexBits < 0 ? -1 : s.buffer - out;
}
static void ucode(unsigned x, Bits &s, int pot) {
	switch (pot) { case 0: G::unsignedCode<0>(x, s); break; case 1: G::unsignedCode<1>(x, s); break; case 2: G::unsignedCode<2>(x, s); break;
	case 3: G::unsignedCode<3>(x, s); break; default: G::unsignedCode<4>(x, s); }
}
static void icode(int x, Bits &s, int pot) {
	switch (pot) { case 0: G::interleavedCode<0>(x, s); break; case 1: G::interleavedCode<1>(x, s); break; case 2: G::interleavedCode<2>(x, s); break;
	case 3: G::interleavedCode<3>(x, s); break; default: G::interleavedCode<4>(x, s); }
}
static void scode(int x, Bits &s, int pot) {
	switch (pot) { case 0: G::signedCode<0>(x, s); break; case 1: G::signedCode<1>(x, s); break; case 2: G::signedCode<2>(x, s); break;
	case 3: G::signedCode<3>(x, s); break; default: G::signedCode<4>(x, s); }
}
// kind 0 unsigned, 1 interleaved, 2 signed; pot 0..4
long ref_golomb(int kind, uint32_t x, int pot, uint32_t *out, long words)
{
	Bits s(out, out + words);
	if (kind == 0) ucode(x, s, pot); else if (kind == 1) icode(int(x), s, pot); else scode(int(x), s, pot);
	s.flushWriteWord();
	return s.indexBits < 0 ? -1 : s.buffer - out;
}
int ref_cubic(int c0, int c1, int c2, int c3) { return G::cubic<int>(c0, c1, c2, c3); }
}
