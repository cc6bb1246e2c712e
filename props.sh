# property -> module, harness package, extra build flags, watchdog seconds
declare -A MODULE_OF HARNESS_OF FLAGS_OF LIMIT_OF
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09; do MODULE_OF[$p]=shlib; HARNESS_OF[$p]=main; done
for p in C10 C11 C12 C13 C14 C15 C16 C17 C31; do MODULE_OF[$p]=shuttermint; HARNESS_OF[$p]=appcheck; done
for p in C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30; do MODULE_OF[$p]=shuttermint; HARNESS_OF[$p]=keypercheck; done
for p in C25 C26; do FLAGS_OF[$p]="-race"; done
# the properties that need the real program
declare -A BIN_OF
for p in C27 C28; do BIN_OF[$p]="-race"; done
for p in C29 C30 C31; do BIN_OF[$p]=" "; done # without flags
# the property of the WebAssembly modules
MODULE_OF[C32]=shuttermint; HARNESS_OF[C32]=wasmcheck
