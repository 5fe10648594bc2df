// Stands for the loader generated by emscripten: same interface, our runtime.
import { readFileSync } from "node:fs";

export let probe = null;

export default async function load() {
  const path = new URL("./libspot.wasm", import.meta.url);
  const { instance } = await WebAssembly.instantiate(readFileSync(path), {});
  const x = instance.exports;
  const fn = (name) => {
    const f = x[name];
    if (!f) throw new Error("not exported: " + name);
    return f;
  };
  x.verif_main();
  probe = { live: () => x.verif_live(), bad: () => x.verif_bad() };
  // the memory grows now and then (ALLOW_MEMORY_GROWTH): views taken before are detached
  let calls = 0, grown = 0;
  const grow = () => {
    if (++calls % 7 === 0 && grown < 1500) grown++, x.memory.grow(1);
  };
  const back = (ret, v) => (ret === null || ret === undefined ? undefined : ret === "boolean" ? !!v : v);
  const cwrap = (name, ret, _args) => {
    const f = fn(name);
    return (...a) => {
      const held = x.verif_live();
      const r = f(...a);
      if (x.verif_live() > held) grow(); // (only an allocation can grow it)
      return back(ret, r);
    };
  };
  const heap = {
    cwrap,
    ccall: (name, ret, args, a) => cwrap(name, ret, args)(...(a || [])),
    _malloc: (n) => {
      grow();
      return x.malloc(n);
    },
    _free: (p) => x.free(p),
  };
  for (const [name, T] of Object.entries({
    HEAP8: Int8Array, HEAPU8: Uint8Array, HEAP16: Int16Array, HEAPU16: Uint16Array,
    HEAP32: Int32Array, HEAPU32: Uint32Array, HEAPF32: Float32Array, HEAPF64: Float64Array,
  }))
    Object.defineProperty(heap, name, { get: () => new T(x.memory.buffer) });
  for (const name of Object.keys(x))
    if (typeof x[name] === "function" && !(("_" + name) in heap)) heap["_" + name] = x[name];
  heap.getValue = (p, t) => {
    const v = new DataView(x.memory.buffer);
    return t === "double" ? v.getFloat64(p, true) : t === "float" ? v.getFloat32(p, true) : t === "i8" ? v.getInt8(p)
      : t === "i16" ? v.getInt16(p, true) : v.getInt32(p, true);
  };
  heap.UTF8ToString = (p, n) => {
    const b = new Uint8Array(x.memory.buffer);
    let e = p;
    while (b[e] && !(n !== undefined && e - p >= n)) e++;
    return new TextDecoder().decode(b.slice(p, e));
  };
  return heap;
}
