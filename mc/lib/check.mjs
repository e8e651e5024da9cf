// Bookkeeping of one check: what was explored, what failed, the evidence file.
import fs from "node:fs";
import path from "node:path";
const root = process.env.VERIF_ROOT || "/verif";
export const show = v => JSON.stringify(v, (_, x) => typeof x === "bigint" ? "0x" + x.toString(16) : x instanceof Uint8Array ? Buffer.from(x).toString("hex") : x instanceof Error ? String(x) : x === undefined ? "undefined" : x);
export class Check {
  constructor(id) {
    this.id = id; this.tier = process.env.VERIF_TIER || "quick"; this.t0 = Date.now();
    this.n = { states: 0, transitions: 0, traces: 0 }; this.bounds = []; this.samples = []; this.parts = {}; this.fails = new Map();
    this.known = new Map();
    try { for (const l of fs.readFileSync(path.join(root, "known-findings.txt"), "utf8").split("\n")) { const m = /^known: property=(\S+) key=(\S+) ?(.*)$/.exec(l); if (m && m[1] === id) this.known.set(m[2], m[3]); } } catch { }
  }
  get thorough() { return this.tier === "thorough"; }
  states(n = 1) { this.n.states += n; } steps(n = 1) { this.n.transitions += n; } traces(n = 1) { this.n.traces += n; }
  part(k, n = 1) { this.parts[k] = (this.parts[k] || 0) + n; }
  bound(s) { this.bounds.push(s); } sample(v) { if (this.samples.length < 12) this.samples.push(v); }
  fail(key, detail) { key = key.replace(/[^\w:.-]/g, "_"); const e = this.fails.get(key); if (e) e.cases++; else this.fails.set(key, { cases: 1, detail }); }
  ensure(ok, key, detail) { if (!ok) this.fail(key, typeof detail === "function" ? detail() : detail); return ok; }
  finish() {
    const dir = path.join(root, "evidence"), rdir = path.join(dir, "replays"); fs.mkdirSync(rdir, { recursive: true });
    const viol = [], knowns = [];
    for (const [key, { cases, detail }] of [...this.fails].sort()) {
      if (this.known.has(key)) { console.log(`KNOWN-FINDING: property=${this.id} ${this.known.get(key) || key} (${cases} cases)`); knowns.push({ key, cases }); continue; }
      const p = path.join(rdir, `${this.id}-${key.slice(0, 80).replaceAll(":", "_")}.json`);
      fs.writeFileSync(p, show({ property: this.id, key, cases, first: detail }) + "\n");
      console.log(`VIOLATION property=${this.id} replay=${p}`); console.log(`  ${key} (${cases} cases): ${show(detail)}`); viol.push({ key, cases, replay: p });
    }
    const wall = (Date.now() - this.t0) / 1000, { states, transitions, traces } = this.n;
    if (!viol.length && (!states || !transitions || !traces)) { console.error(`check ${this.id} explored nothing: ${show(this.n)}`); process.exit(3); }
    fs.writeFileSync(path.join(dir, `${this.id}.json`), JSON.stringify(JSON.parse(show({ property: this.id, tier: this.tier, seed: Number(process.env.VERIF_SEED) || 1, level: "model_checking", coverage: { states, transitions, traces_validated_against_impl: traces, explored: this.bounds, by_part: this.parts, samples: this.samples, known_findings_seen: knowns }, wall_s: wall, violations: viol })), null, 1));
    console.log(`${this.id} ${this.tier}: ${states} states, ${transitions} transitions, ${traces} traces, ${viol.length} violation(s), ${wall.toFixed(1)}s`);
    process.exit(viol.length ? 1 : 0);
  }
}
/** The value or the error of a call, whether it is synchronous or not. */
export const outcome = f => { try { return { v: f() }; } catch (e) { return { e }; } };
export const settle = async f => { try { return { v: await f() }; } catch (e) { return { e }; } };
export function* tuples(base, len) { const t = new Array(len).fill(0); if (!base && len) return; for (; ;) { yield t.slice(); let i = 0; while (i < len && ++t[i] === base) t[i++] = 0; if (i === len) return; } }
/** Lengths for what handles lists of any length: each small one, then powers of two and their neighbours. */
export const lengths = top => [...new Set([...Array.from({ length: 71 }, (_, i) => i), ...Array.from({ length: 13 }, (_, k) => [2 ** (k + 7) - 1, 2 ** (k + 7), 2 ** (k + 7) + 1]).flat(), 100, 200, 300, 1000])].filter(n => n <= top).sort((a, b) => a - b);
/** Places of a list of n: all of a short one, else the ends and both sides of powers of two. */
export const places = n => n <= 70 ? Array.from({ length: n }, (_, i) => i) : [...new Set([0, 1, 2, 3, ...Array.from({ length: 18 }, (_, k) => [2 ** (k + 2) - 1, 2 ** (k + 2)]).flat(), 100, 200, 300, n >> 1, n - 2, n - 1])].filter(x => x < n).sort((a, b) => a - b);
