cd /verif/sched && RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" cargo +nightly build --profile race --offline --features race --bin c04race --target x86_64-unknown-linux-gnu --target-dir /verif/target/race 2>&1 | grep -A9 "^error"
