// C interface to one variant of the reference. Included with GFWX_NS, FN(name) and optionally GFWX_TRUNC defined.
#include "gfwx.hpp"
#include <cstring>
namespace G = GFWX_NS;

extern "C" {
// returns the stream size, 0 on error
size_t FN(compress)(const uint8_t *img, int w, int h, int layers, int channels, int q, int chroma, int block, int filter,
                    int enc, int intent, const int *program, uint8_t *out, size_t out_size)
{
	G::Header hd(w, h, layers, channels, 8, q, chroma, block, filter, 0, enc, intent);
	ptrdiff_t r = G::compress(img, hd, out, out_size, program, nullptr, 0);
	return r < 0 ? 0 : size_t(r);
}
// whole stream including header; returns the reference's return value
ptrdiff_t FN(decompress)(const uint8_t *data, size_t size, int downsampling, int test, uint8_t *out)
{
	G::Header hd;
	return G::decompress(out, hd, data, size, downsampling, test != 0);
}
}
