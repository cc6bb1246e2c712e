// Runs one wasm module of the repository and calls its functions: one JSON request per line on
// stdin, one JSON answer per line on stdout.
"use strict";
const fs = require("fs");
const [, , wasmExec, module_] = process.argv;
require(wasmExec);
const go = new globalThis.Go();
let ended = null;
function arg(a) {
  const b = Buffer.from(a.v || "", "hex");
  switch (a.t) {
    case "u8": return new Uint8Array(b);
    case "clamped": return new Uint8ClampedArray(b);
    case "view": { // part of a bigger buffer
      const big = new Uint8Array(b.length + 11);
      big.fill(0x5a);
      big.set(b, 7);
      return big.subarray(7, 7 + b.length);
    }
    case "buffer": return b; // node's Buffer is a Uint8Array
    case "array": return Array.from(b);
    case "arraybuffer": return new Uint8Array(b).buffer;
    case "u16": return new Uint16Array(b);
    case "string": return a.v;
    case "number": return b.length;
    case "null": return null;
    case "undefined": return undefined;
    case "object": return { length: b.length };
    case "function": return () => 1;
    case "bool": return true;
  }
  throw new Error("unknown type " + a.t);
}
function names() {
  return Object.keys(globalThis).filter((n) => n.startsWith("shcrypto_")).sort();
}
async function main() {
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(module_), go.importObject);
  go.run(instance).then(() => { ended = "the module ended"; }, (e) => { ended = "the module failed: " + e; });
  console.log(JSON.stringify({ names: names() }));
  const rl = require("readline").createInterface({ input: process.stdin });
  for await (const line of rl) {
    const req = JSON.parse(line);
    let ans;
    try {
      const args = req.args.map(arg);
      const before = args.map((a) => (ArrayBuffer.isView(a) ? Buffer.from(a.buffer).toString("hex") : ""));
      const r = globalThis[req.fn](...args);
      const after = args.map((a) => (ArrayBuffer.isView(a) ? Buffer.from(a.buffer).toString("hex") : ""));
      ans = { type: r === null ? "null" : typeof r, value: String(r), changed: before.some((b, i) => b !== after[i]) };
    } catch (e) {
      ans = { exception: String(e) };
    }
    await new Promise((r) => setImmediate(r));
    if (go.exited || ended) ans.ended = ended || "the module exited";
    console.log(JSON.stringify(ans));
  }
  process.exit(0);
}
main().catch((e) => { console.error(e); process.exit(1); });
