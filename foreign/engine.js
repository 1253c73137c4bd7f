// node engine.js MODULE seeds BASE FIRST SECONDS | node engine.js MODULE text < scenarios |
// node engine.js MODULE digest BASE FIRST COUNT
// node engine.js MODULE vast BASE FIRST SECONDS | node engine.js MODULE vdigest BASE FIRST COUNT
// The host of the WebAssembly machine. Prints one JSON object.
const fs = require("fs");
const [file, mode, base, first, seconds] = process.argv.slice(2);
const compiled = new WebAssembly.Module(fs.readFileSync(file));
// the heap may use the first 256 MiB; the last page is for buffers which end where the memory ends
const PAGES = (256 << 20) / 65536 + 1;

const VAST = mode === "vast" || mode === "vdigest" ? 2048 * 16 : 0;

function boot(more = VAST) {
  const m = new WebAssembly.Instance(compiled, {}).exports;
  const have = m.memory.buffer.byteLength / 65536;
  if (have < PAGES + more) m.memory.grow(PAGES + more - have);
  return m;
}

function message(m) {
  return Buffer.from(m.memory.buffer, m.message() >>> 0, m.message_len() >>> 0).toString();
}

function trap(e) {
  return { class: "trap", message: String(e.message) };
}

// one scenario which may end by a trap: {violation, m} with the machine to go on with
function vast(m, lo, hi, i) {
  let violation = null, next = m;
  try {
    if (m.vast_one(lo, hi, i) >>> 0 === 1) violation = { class: "wrong-result", message: message(m) };
  } catch (e) {
    violation = ended(m, e);
    next = null;
  }
  return { violation, next };
}

function ended(m, e) {
  const s = m.state() >>> 0;
  return s === 1 ? null : s === 2 ? { class: "wrong-result", message: message(m) } : trap(e);
}

let result = { violation: null };
if (mode === "text") {
  let m = null, more = -1;
  for (const t of fs.readFileSync(0).toString().split("\n").filter((x) => x)) {
    const b = Buffer.from(t), need = t.startsWith("vast|") ? 2048 * 16 : 0;
    let r = 0;
    if (!m || more !== need) m = boot(need);
    more = need;
    try {
      const p = m.text_room(b.length) >>> 0;
      Buffer.from(m.memory.buffer, p, b.length).set(b);
      r = m.replay(p, b.length) >>> 0;
    } catch (e) {
      result.violation = ended(m, e);
      if (!result.violation) m = null;
    }
    if (r === 9) throw new Error("not a scenario");
    if (r === 1) result.violation = { class: "wrong-result", message: message(m) };
    if (result.violation) break;
  }
} else if (mode === "digest") {
  const big = BigInt(base), m = boot(), prime = 0x100000001b3n;
  let h = 0xcbf29ce484222325n;
  for (let i = Number(first); i < Number(first) + Number(seconds); i++) {
    if (m.one(Number(big & 0xffffffffn), Number(big >> 32n), i) !== 0) process.exit(1);
    h = BigInt.asUintN(64, (h ^ BigInt(m.hash(0) >>> 0)) * prime);
    h = BigInt.asUintN(64, (h ^ BigInt(m.hash(1) >>> 0)) * prime);
  }
  result = { digest: String(h) };
} else if (mode === "vdigest") {
  const big = BigInt(base), prime = 0x100000001b3n;
  let h = 0xcbf29ce484222325n, m = null;
  for (let i = Number(first); i < Number(first) + Number(seconds); i++) {
    const at = m || boot();
    const r = vast(at, Number(big & 0xffffffffn), Number(big >> 32n), i);
    if (r.violation) process.exit(1);
    m = r.next;
    h = BigInt.asUintN(64, (h ^ BigInt(at.hash(0) >>> 0)) * prime);
    h = BigInt.asUintN(64, (h ^ BigInt(at.hash(1) >>> 0)) * prime);
  }
  result = { digest: String(h) };
} else if (mode === "vast") {
  const big = BigInt(base);
  const lo = Number(big & 0xffffffffn), hi = Number((big >> 32n) & 0xffffffffn);
  const end = Date.now() + Number(seconds) * 1000;
  const counters = { operations: 0, vast_blocks_refused: 0, vast_blocks_given: 0, operations_over_gigabytes: 0, ends_without_return: 0 };
  const names = Object.keys(counters).slice(1);
  const seen = new Set();
  let m = boot(), i = Number(first), runs = 0;
  const text = (k) => {
    const f = boot(0);
    f.vast_show(lo, hi, k);
    return message(f);
  };
  result.sample = text(i);
  do {
    const at = m || boot();
    const r = vast(at, lo, hi, i);
    m = r.next;
    runs++;
    counters.operations += at.operations() >>> 0;
    names.forEach((n, k) => (counters[n] += at.counts(k) >>> 0));
    seen.add((at.hash(0) >>> 0) + (at.hash(1) >>> 11) * 4294967296);
    if (r.violation) {
      result.violation = r.violation;
      result.scenario = text(i);
      break;
    }
    i++;
  } while (Date.now() < end);
  Object.assign(result, { runs, counters, distinct: seen.size });
} else {
  const big = BigInt(base);
  const lo = Number(big & 0xffffffffn), hi = Number((big >> 32n) & 0xffffffffn);
  const end = Date.now() + Number(seconds) * 1000;
  const counters = { operations: 0 };
  const seen = new Set();
  let m = boot(), i = Number(first), runs = 0;
  const text = (k) => {
    const f = boot();
    f.show(lo, hi, k);
    return message(f);
  };
  result.sample = text(i);
  while (Date.now() < end) {
    let r = 0;
    try {
      r = m.one(lo, hi, i) >>> 0;
    } catch (e) {
      result.violation = trap(e);
    }
    runs++;
    counters.operations += m.operations() >>> 0;
    if (r === 1) result.violation = { class: "wrong-result", message: message(m) };
    if (result.violation) {
      result.scenario = text(i);
      break;
    }
    seen.add((m.hash(0) >>> 0) + (m.hash(1) >>> 11) * 4294967296);
    i++;
  }
  Object.assign(result, { runs, counters, distinct: seen.size });
}
console.log(JSON.stringify(result));
