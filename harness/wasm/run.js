// node run.js MODULE transcript|workloads [options as of vh transcript]: the workloads in WebAssembly,
// one case at a time; a line for each. A panic stops the module: its message is the line, and a new
// module goes on. A case that does not return within STALL seconds ends the run.
"use strict";
const { Worker, isMainThread, parentPort, workerData } = require("worker_threads");
const fs = require("fs");
const STALL = 90;

class Instance {
  constructor(mod) {
    const env = {};
    for (const i of WebAssembly.Module.imports(mod))
      if (i.kind === "function") env[i.name] = this.stub(i.name);
    const by = {};
    for (const i of WebAssembly.Module.imports(mod)) (by[i.module] ||= {})[i.name] = env[i.name];
    this.e = new WebAssembly.Instance(mod, by).exports;
    this.e.prepare();
  }
  stub(name) {
    const mem = () => new Uint8Array(this.e.memory.buffer);
    const dead = () => { throw new Error(name + " was called"); };
    const s = {
      memcpy: (d, f, n) => (mem().copyWithin(d >>> 0, f >>> 0, (f >>> 0) + (n >>> 0)), d),
      memmove: (d, f, n) => (mem().copyWithin(d >>> 0, f >>> 0, (f >>> 0) + (n >>> 0)), d),
      memset: (d, c, n) => (mem().fill(c & 255, d >>> 0, (d >>> 0) + (n >>> 0)), d),
      memcmp: (a, b, n) => Buffer.compare(mem().subarray(a >>> 0, (a >>> 0) + n), mem().subarray(b >>> 0, (b >>> 0) + n)),
      bcmp: (a, b, n) => Buffer.compare(mem().subarray(a >>> 0, (a >>> 0) + n), mem().subarray(b >>> 0, (b >>> 0) + n)),
      strlen: (a) => mem().indexOf(0, a >>> 0) - (a >>> 0),
      clock_gettime: (_, t) => (mem().fill(0, t >>> 0, (t >>> 0) + 16), 0),
      getenv: () => 0,
      getentropy: (a, n) => (require("crypto").randomFillSync(mem(), a >>> 0, n >>> 0), 0),
    };
    return s[name] || dead;
  }
  text(n) {
    return Buffer.from(this.e.memory.buffer, this.e.text() >>> 0, n >>> 0).toString();
  }
}

function options(a) {
  const o = {};
  for (let i = 0; i < a.length; i++) if (a[i].startsWith("--")) o[a[i].slice(2)] = a[i + 1];
  return o;
}

function ended(w, e) {
  // a panic leaves its text behind before it stops the module
  if (/was called/.test(e.message)) return "unsupported: " + e.message;
  if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e;
  let t = "";
  try { t = Buffer.from(w.e.memory.buffer, w.e.text() >>> 0, 400).toString().split("\0")[0]; } catch (_) {}
  const m = /^panic at [\x20-\x7e]*/.exec(t);
  return m ? m[0] : "trap: " + e.message;
}

if (!isMainThread) {
  const { mod, seed, jobs, k, n, until, what, now } = workerData;
  let w = new Instance(mod);
  let rows = [];
  for (let j = k; j < jobs.length && Date.now() < until; j += n) {
    const [p, name, i] = jobs[j];
    Atomics.store(now, k, j);
    try {
      rows.push([j, w.text(what === "transcript" ? w.e.run(p, seed, BigInt(i), 0) : w.e.one(p, seed, BigInt(i)))]);
    } catch (e) {
      const t = ended(w, e);
      rows.push([j, what === "transcript" ? `${name} ${i} 0 0 ended: ${t}` : `${name} ${i} 0 ${t}`]);
      w = new Instance(mod);
    }
    if (w.e.memory.buffer.byteLength > 256 << 20) w = new Instance(mod);
    if (rows.length >= 20) {
      parentPort.postMessage({ rows });
      rows = [];
    }
  }
  parentPort.postMessage({ rows, done: true });
} else {
  const what = process.argv[3];
  const o = options(process.argv.slice(4));
  const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
  const seed = BigInt(o.seed || 1);
  const main = new Instance(mod);
  const list = main.text(what === "transcript" ? main.e.parts() : main.e.families()).split("\n").map((l) => l.split(" "));
  if (o.part !== undefined && o.idx !== undefined) {
    const p = list.findIndex((x) => x[0] === o.part);
    try {
      const i = BigInt(o.idx);
      console.log(main.text(what === "transcript" ? main.e.run(p, seed, i, 1) : main.e.one(p, seed, i)).trimEnd());
    } catch (e) {
      console.log("ended: " + ended(main, e));
    }
  } else {
    // interleaved, so that a time limit cuts all of them alike
    let jobs = [];
    list.forEach(([name, c], p) => {
      const m = Math.ceil(Number(c) * Number(o.scale || 1));
      for (let i = 0; i < m; i++) jobs.push([p, name, i, i / m]);
    });
    jobs = jobs.sort((a, b) => a[3] - b[3] || a[0] - b[0]).map((x) => x.slice(0, 3));
    const n = Number(o.threads || 8);
    const until = Date.now() + 1000 * Number(o.time || 3600);
    const now = new Int32Array(new SharedArrayBuffer(4 * n)).fill(-1);
    const seen = Array(n).fill([-1, 0]);
    const alive = Array(n).fill(true);
    let rows = [];
    const finish = () => {
      rows.sort((a, b) => a[0] - b[0]);
      const text = rows.map((r) => r[1] + "\n").join("");
      if (o.out && o.out !== "-") fs.writeFileSync(o.out, text);
      else fs.writeSync(1, text);
      process.exit(0);
    };
    for (let k = 0; k < n; k++) {
      const w = new Worker(__filename, { workerData: { mod, seed, jobs, k, n, until, what, now }, resourceLimits: { stackSizeMb: 16 } });
      w.on("error", (e) => { console.error(e); process.exit(3); });
      w.on("message", (m) => {
        for (const r of m.rows) rows.push(r);
        if (m.done) alive[k] = false;
        if (!alive.includes(true)) finish();
      });
    }
    let ticks = 0;
    setInterval(() => {
      ticks++;
      for (let k = 0; k < n; k++) {
        const j = Atomics.load(now, k);
        if (seen[k][0] !== j) seen[k] = [j, ticks];
        else if (alive[k] && j >= 0 && ticks - seen[k][1] > STALL) {
          const [, name, i] = jobs[j];
          const t = `hang: no return within ${STALL} s`;
          rows.push([j, what === "transcript" ? `${name} ${i} 0 0 ended: ${t}` : `${name} ${i} 0 ${t}`]);
          finish();
        }
      }
    }, 1000);
  }
}
