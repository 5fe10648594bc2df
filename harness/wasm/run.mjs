// Executes operations on the JavaScript binding and records what it exposes.
//   node --expose-gc run.mjs OPS.json OUT.ndjson
import { readFileSync, openSync, writeSync, closeSync } from "node:fs";
import * as lib from "./index.js";
import { probe } from "./libspot.core.js";

const { Spot } = lib;
const [opsfile, outfile] = process.argv.slice(2);
const out = openSync(outfile, "w");
const put = (o) => writeSync(out, JSON.stringify(o) + "\n");

const cell = new DataView(new ArrayBuffer(8));
const dw = (x) => {
  cell.setFloat64(0, x);
  if (x !== x) cell.setUint32(0, 0x7ff80000), cell.setUint32(4, 0);
  return [cell.getInt32(0), cell.getInt32(4)];
};
const und = (p) => {
  cell.setInt32(0, p[0]);
  cell.setInt32(4, p[1]);
  return cell.getFloat64(0);
};
class Sub extends Spot {
  constructor(o) {
    super(o);
    this.extra = [o.q];
  }
}
const int = (x) => (Number.isInteger(x) ? x : -99999);
const str = (x) => (typeof x === "string" ? x : "not a string");
const dbl = (x) => (typeof x === "number" ? dw(x) : [-1, -99999]);
const state = (o) => ({ et: dbl(o.excess_threshold()), zq: dbl(o.anomaly_threshold()) });
const attempt = (f) => {
  try {
    return [f(), "", ""];
  } catch (e) {
    return [null, e instanceof Error ? e.name : String(e), String(e.message)];
  }
};
const decode = (kw) => {
  const r = {};
  for (const [k, v] of Object.entries(kw)) r[k] = v === "undef" ? undefined : Array.isArray(v) ? und(v) : v;
  return r;
};
function container(kind, data) {
  if (kind === "view" || kind === "tail") {
    const pre = kind === "tail" ? data.length + 3 : 3;
    const big = new Float64Array(pre + data.length + (kind === "tail" ? 0 : 5)).fill(12345.678);
    big.set(data, pre);
    return big.subarray(pre, pre + data.length);
  }
  return Float64Array.from(data);
}

let objs = new Map();
let collected = 0;
const control = new FinalizationRegistry(() => collected++);
const tick = () => new Promise((r) => setTimeout(r, 0));
function dropped() {
  control.register({}, 0);
}
async function settle(expected) {
  // collect until the control object is gone and the memory is as expected
  const want = collected + 1;
  dropped();
  for (let i = 0; i < 60; i++) {
    globalThis.gc();
    await tick();
    if (collected >= want && probe.live() === expected() && i > 0) break;
  }
  return probe.live();
}

function one(script, step) {
  const [op, d, ...args] = step;
  const o = objs.get(d);
  const ev = { k: "op", op, d, live: -1, objs: 0 };
  const before = probe.live();
  let r, exc, msg;
  if (op === "new") {
    const kw = decode(args[0]);
    const C = args[1] === "Sub" ? Sub : Spot;
    [r, exc, msg] = attempt(() => new C(kw));
    if (exc === "") objs.set(d, r);
    const get = (k, v) => (kw[k] === undefined ? v : kw[k]);
    ev.op = "init";
    ev.args = { q: dw(kw.q), low: get("low", 0), disc: get("discardAnomalies", 1), level: dw(get("level", 0.98)), cap: String(get("maxExcess", 500)) };
    ev.b = { exc, msg, ret: 0 };
    if (exc === "") ev.b.st = state(r);
    return ev;
  }
  if (op === "version") {
    [r, exc, msg] = attempt(() => lib.libspotVersion());
    ev.b = { exc, msg, ret: str(r) };
  } else if (op === "error") {
    [r, exc, msg] = attempt(() => lib.libspotError(args[0]));
    ev.b = { exc, msg, ret: str(r) };
    ev.code = args[0];
  } else if (op === "fit") {
    const data = args[1].map(und);
    const a = container(args[0], data);
    const copy = Array.from(a);
    [r, exc, msg] = attempt(() => o.fit(a));
    ev.b = { exc, msg, ret: exc ? 0 : int(r), st: state(o), ro: Array.from(a).every((v, i) => Object.is(v, copy[i])) ? 1 : 0 };
    ev.args = data.map(dw);
  } else {
    let v = und(args[1]);
    const et = o.excess_threshold(), zq = o.anomaly_threshold();
    let x = v;
    if (op !== "quant" && args[0] === "M") {
      x = et + v * (zq - et);
      if (x !== x) x = v;
    }
    const f = { step: "step", prob: "probability", quant: "quantile" }[op];
    [r, exc, msg] = attempt(() => o[f](x));
    ev.args = dw(x);
    ev.b = { exc, msg, ret: exc ? 0 : op === "step" ? int(r) : dbl(r), st: state(o) };
  }
  ev.delta = probe.live() - before;
  return ev;
}

async function run(script, id) {
  put({ k: "new", d: -1, id });
  for (const step of script) {
    const [op, d] = step;
    if (op === "del") {
      objs.delete(d);
      const live = await settle(() => 2 * objs.size);
      put({ k: "op", op, d, b: { exc: "", msg: "", ret: 0 }, live, objs: objs.size });
      if (live !== 2 * objs.size) process.exit(0); // shown: no need to wait for the others
      continue;
    }
    if (!objs.has(d) && !["new", "version", "error"].includes(op)) continue;
    put(one(script, step));
  }
  objs = new Map();
  const live = await settle(() => 0);
  put({ k: "op", op: "end", d: -1, b: { exc: "", msg: "", ret: 0 }, live: -1, objs: 0, leak: live + probe.bad() });
  if (live + probe.bad()) process.exit(0);
}

try {
  // first calls (whatever is allocated once for all)
  (function () {
    for (const c of [1000, 1003]) lib.libspotError(c);
    lib.libspotVersion();
    const s = new Spot({ q: 1e-3 });
    attempt(() => s.fit(Float64Array.from([1, 2])));
    s.fit(Float64Array.from([1, 2, 3, 4, 5, 6.5]));
    s.step(3), s.quantile(0.01), s.probability(8);
    attempt(() => s.step(NaN));
    attempt(() => new Spot({ q: 7 }));
  })();
  await settle(() => 0);
  if (lib.NORMAL !== 0 || lib.EXCESS !== 1 || lib.ANOMALY !== 2) throw new Error("constants");
  if (!(lib.spotSize() > 0)) throw new Error("size");
  let id = 0;
  for (const script of JSON.parse(readFileSync(opsfile))) await run(script, id++);
} catch (e) {
  put({ k: "new", d: -1, id: 999998 });
  put({ k: "crash", d: -1, what: String(e && e.stack ? e.stack : e).slice(0, 800) });
}
closeSync(out);
