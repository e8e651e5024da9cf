// Stand-ins for the packages the library depends on, with the behaviour of the pinned versions.
import * as C from "./curve.mjs";
// ---- bn.js
export class BN {
  constructor(x, base = 10, endian = "be") {
    if (BN.isBN(x)) return x;
    if (base === "le" || base === "be") { endian = base; base = 10; }
    if (base === "hex") base = 16;
    if (x === null || x === undefined) this.b = 0n;
    else if (typeof x === "number") { if (!Number.isSafeInteger(x)) throw new Error("Assertion failed"); this.b = BigInt(x); }
    else if (typeof x === "object") { const a = Array.from(x); if (typeof x.length !== "number") throw new Error("Assertion failed"); if (endian === "le") a.reverse(); this.b = a.reduce((t, v) => t << 8n | BigInt(v & 255), 0n); }
    else {
      let s = x.toString().replace(/\s+/g, ""); const neg = s[0] === "-"; if (neg) s = s.slice(1);
      let v = 0n; for (const c of s) { const d = parseInt(c, 36); if (!(d < base)) throw new Error("Invalid character"); v = v * BigInt(base) + BigInt(d); } this.b = neg ? -v : v;
    }
  }
  static isBN(x) { return x instanceof BN; }
  static of(b) { const r = new BN(0); r.b = b; return r; }
  static max(a, b) { return a.b > b.b ? a : b; } static min(a, b) { return a.b < b.b ? a : b; }
  static red(m) { return { m: BN.isBN(m) ? m : BN.of(C.P), prime: null }; }
  get negative() { return this.b < 0n ? 1 : 0; }
  toString(base = 10, pad = 0) { if (base === "hex") base = 16; let s = (this.b < 0n ? -this.b : this.b).toString(base); pad = pad | 0 || 1; while (s.length % pad) s = "0" + s; return (this.b < 0n ? "-" : "") + s; }
  toJSON() { return this.toString(16, 2); }
  toNumber() { if (this.b > 2n ** 53n || this.b < -(2n ** 53n)) throw new Error("Number can only safely store up to 53 bits"); return Number(this.b); }
  toArray(endian = "be", len) { let h = this.b.toString(16); if (h.length % 2) h = "0" + h; let a = [...Buffer.from(h, "hex")]; if (len !== undefined) { if (a.length > len) { if (this.b) throw new Error("byte array longer than desired length"); } while (a.length < len) a.unshift(0); } return endian === "le" ? a.reverse() : a; }
  toArrayLike(T, e, l) { return T.from(this.toArray(e, l)); } toBuffer(e, l) { return Buffer.from(this.toArray(e, l)); }
  clone() { return BN.of(this.b); } bitLength() { return this.b ? this.b.toString(2).length : 0; } byteLength() { return Math.ceil(this.bitLength() / 8); }
  add(o) { return BN.of(this.b + o.b); } sub(o) { return BN.of(this.b - o.b); } mul(o) { return BN.of(this.b * o.b); } sqr() { return BN.of(this.b * this.b); } pow(o) { return BN.of(this.b ** o.b); }
  div(o) { return BN.of(this.b / o.b); } mod(o) { return BN.of(this.b % o.b); } umod(o) { return BN.of(C.mod(this.b, o.b)); } modn(n) { return Number(this.b % BigInt(n)); } modrn(n) { return this.modn(n); }
  neg() { return BN.of(-this.b); } abs() { return BN.of(this.b < 0n ? -this.b : this.b); } gcd(o) { let [a, b] = [this.abs().b, o.abs().b]; while (b) [a, b] = [b, a % b]; return BN.of(a); }
  invm(m) { let [x, y, u, v] = [C.mod(this.b, m.b), m.b, 1n, 0n]; while (x) { const q = y / x; [x, y, u, v] = [y - q * x, x, v - q * u, u]; } return BN.of(C.mod(v, m.b)); } _invmp(m) { return this.invm(m); }
  addn(n) { return BN.of(this.b + BigInt(n)); } subn(n) { return BN.of(this.b - BigInt(n)); } muln(n) { return BN.of(this.b * BigInt(n)); } divn(n) { return BN.of(this.b / BigInt(n)); }
  iadd(o) { this.b += o.b; return this; } isub(o) { this.b -= o.b; return this; } imul(o) { this.b *= o.b; return this; } iaddn(n) { this.b += BigInt(n); return this; } isubn(n) { this.b -= BigInt(n); return this; } imuln(n) { this.b *= BigInt(n); return this; } ineg() { this.b = -this.b; return this; }
  and(o) { return BN.of(this.b & o.b); } or(o) { return BN.of(this.b | o.b); } xor(o) { return BN.of(this.b ^ o.b); } andln(n) { return Number(this.b & BigInt(n)); } shln(n) { return BN.of(this.b << BigInt(n)); } shrn(n) { return BN.of(this.b >> BigInt(n)); } ushln(n) { return this.shln(n); } ushrn(n) { return this.shrn(n); } maskn(n) { return BN.of(this.b & ((1n << BigInt(n)) - 1n)); } testn(n) { return !!(this.b >> BigInt(n) & 1n); }
  cmp(o) { return this.b < o.b ? -1 : this.b > o.b ? 1 : 0; } ucmp(o) { return this.abs().cmp(o.abs()); } cmpn(n) { return this.cmp(BN.of(BigInt(n))); }
  eq(o) { return this.b === o.b; } lt(o) { return this.b < o.b; } lte(o) { return this.b <= o.b; } gt(o) { return this.b > o.b; } gte(o) { return this.b >= o.b; } eqn(n) { return !this.cmpn(n); } ltn(n) { return this.cmpn(n) < 0; } lten(n) { return this.cmpn(n) <= 0; } gtn(n) { return this.cmpn(n) > 0; } gten(n) { return this.cmpn(n) >= 0; }
  isZero() { return this.b === 0n; } isOdd() { return (this.b & 1n) === 1n; } isEven() { return !this.isOdd(); } isNeg() { return this.b < 0n; }
  toRed(red) { return Red.of(this.b, red.m.b); } fromRed() { return this; }
}
class Red extends BN {
  static of(b, m) { const r = new Red(0); r.b = C.mod(b, m); r.m = m; r.red = { m: BN.of(m) }; return r; }
  redAdd(o) { return Red.of(this.b + o.b, this.m); } redSub(o) { return Red.of(this.b - o.b, this.m); } redMul(o) { return Red.of(this.b * o.b, this.m); } redSqr() { return Red.of(this.b ** 2n, this.m); } redNeg() { return Red.of(-this.b, this.m); } redInvm() { return Red.of(C.inv(this.b, this.m) ?? 0n, this.m); }
  redPow(o) { return Red.of(C.pow(this.b, o.b, this.m), this.m); } redSqrt() { return this.redPow(BN.of((this.m + 1n) / 4n)); } redIAdd(o) { return this.redAdd(o); } redISub(o) { return this.redSub(o); } redIMul(o) { return this.redMul(o); } fromRed() { return BN.of(this.b); } clone() { return Red.of(this.b, this.m); }
}
// ---- elliptic
const num = (x, base = 16) => BN.isBN(x) ? x : new BN(x, base);
class Point {
  constructor(curve, a) { this.curve = curve; this.a = a; this.inf = a === null; this.x = a && Red.of(a[0], C.P); this.y = a && Red.of(a[1], C.P); this.type = "affine"; }
  getX() { return this.x.fromRed(); } getY() { return this.y.fromRed(); } isInfinity() { return this.inf; } validate() { return C.onCurve(this.a); } eq(o) { return this === o || this.inf === o.inf && (this.inf || this.a[0] === o.a[0] && this.a[1] === o.a[1]); }
  add(o) { return new Point(this.curve, C.add(this.a, o.a)); } dbl() { return this.add(this); } neg() { return new Point(this.curve, C.neg(this.a)); } mul(k) { return new Point(this.curve, C.mul(this.a, num(k).b)); } mulAdd(k, p, l) { return this.mul(k).add(p.mul(l)); } jmulAdd(k, p, l) { return this.mulAdd(k, p, l); } toJ() { return this; } toP() { return this; } normalize() { return this; } precompute() { return this; }
  encode(enc, compact) { const h = x => x.toString(16).padStart(64, "0"); const s = compact ? (this.a[1] & 1n ? "03" : "02") + h(this.a[0]) : "04" + h(this.getX().b) + h(this.getY().b); return enc === "hex" ? s : [...Buffer.from(s, "hex")]; }
  encodeCompressed(enc) { return this.encode(enc, true); } inspect() { return "<EC Point>"; } toJSON() { return [this.x, this.y]; }
}
class KeyPair {
  constructor(ec, pub, priv) { this.ec = ec; this.pub = pub; this.priv = priv; }
  getPublic(compact, enc) { if (typeof compact === "string") { enc = compact; compact = null; } this.pub ||= this.ec.g.mul(this.priv); return enc ? this.pub.encode(enc, compact) : this.pub; }
  getPrivate(enc) { return enc === "hex" ? this.priv.toString(16, 2) : this.priv; } validate() { const p = this.getPublic(); return p.isInfinity() ? { result: false, reason: "Invalid public key" } : p.validate() ? { result: true, reason: null } : { result: false, reason: "Public key is not a point" }; }
  derive(p) { return p.mul(this.priv).getX(); }
}
export class EC {
  constructor(name) {
    if (name !== "secp256k1") throw new Error("Unknown curve " + name);
    const curve = this.curve = { type: "short", p: BN.of(C.P), n: BN.of(C.N), red: { m: BN.of(C.P) }, a: Red.of(0n, C.P), b: Red.of(7n, C.P), zero: Red.of(0n, C.P), one: Red.of(1n, C.P), two: Red.of(2n, C.P) };
    curve.point = (x, y) => new Point(curve, x === null || x === undefined ? null : [num(x).umod(curve.p).b, num(y).umod(curve.p).b]);
    curve.pointFromX = (x, odd) => { const p = C.liftX(num(x).umod(curve.p).b, false); if (!p) throw new Error("invalid point"); const isOdd = (p[1] & 1n) === 1n; return new Point(curve, odd && !isOdd || !odd && isOdd ? C.neg(p) : p); };
    curve.validate = p => p.validate();
    curve.decodePoint = (bytes, enc) => { const b = typeof bytes === "string" ? Buffer.from(bytes, enc === "hex" ? "hex" : undefined) : Buffer.from(bytes); if ((b[0] === 4 || b[0] === 6 || b[0] === 7) && b.length === 65) return curve.point(new BN(b.subarray(1, 33)), new BN(b.subarray(33))); if ((b[0] === 2 || b[0] === 3) && b.length === 33) return curve.pointFromX(new BN(b.subarray(1)), b[0] === 3); throw new Error("Unknown point format"); };
    curve.g = new Point(curve, C.G); this.g = curve.g; this.n = curve.n; this.nh = BN.of(C.N >> 1n);
  }
  keyFromPublic(pub, enc) { if (pub instanceof KeyPair) return pub; if (pub instanceof Point) return new KeyPair(this, pub); if (pub.x && pub.y) return new KeyPair(this, this.curve.point(pub.x, pub.y)); return new KeyPair(this, this.curve.decodePoint(pub, enc)); }
  keyFromPrivate(p, enc) { return new KeyPair(this, null, (typeof p === "string" ? new BN(p, 16) : num(p)).umod(this.n)); }
  recoverPubKey(msg, sig, j) { const r = num(sig.r), s = num(sig.s), R = this.curve.pointFromX(j >> 1 ? r.add(this.n) : r, j & 1), ri = r.invm(this.n); return this.g.mul(this.n.sub(num(msg)).mul(ri).umod(this.n)).add(R.mul(s.mul(ri).umod(this.n))); }
}
// ---- @ethereumjs/util
export const fromRpcSig = sig => {
  if (typeof sig === "string" && !/^0x[0-9a-fA-F]*$/.test(sig)) throw new Error(`Cannot convert string to buffer. toBuffer only supports 0x-prefixed hex strings and this string was given: ${sig}`);
  const h = typeof sig === "string" ? sig.slice(2) : null; const b = h === null ? Buffer.from(sig) : Buffer.from(h.length % 2 ? "0" + h : h, "hex"); let r, s, v;
  if (b.length >= 65) { r = b.subarray(0, 32); s = b.subarray(32, 64); v = BigInt("0x" + b.subarray(64).toString("hex")); }
  else if (b.length === 64) { r = b.subarray(0, 32); s = b.subarray(32, 64); v = BigInt(b[32] >> 7); s[0] &= 0x7f; }
  else throw new Error("Invalid signature length");
  if (v < 27n) v += 27n; return { v, r, s };
};
export const toBuffer = v => typeof v === "string" ? Buffer.from(v.slice(2), "hex") : Buffer.from(v);
export const bufferToHex = b => "0x" + Buffer.from(b).toString("hex");
// ---- @zk-kit/incremental-merkle-tree
export class IncrementalMerkleTree {
  constructor(hash, depth, zero, arity = 2, leaves = []) {
    if (typeof hash !== "function" || typeof depth !== "number" || typeof arity !== "number") throw new TypeError("Parameter has the wrong type"); if (depth < 1 || depth > 32) throw new Error("The tree depth must be between 1 and 32");
    this._hash = hash; this._depth = depth; this._arity = arity; this._zeroes = []; this._nodes = [];
    for (let l = 0; l < depth; l++) { this._zeroes.push(zero); this._nodes.push([]); zero = hash(Array(arity).fill(zero)); }
    this._nodes.push([]); this._root = zero; for (const x of leaves) this.insert(x);
  }
  get root() { return this._root; } get depth() { return this._depth; } get arity() { return this._arity; } get leaves() { return this._nodes[0].slice(); } get zeroes() { return this._zeroes.slice(); }
  indexOf(x) { return this._nodes[0].indexOf(x); }
  _set(index, node) { for (let l = 0; l < this._depth; l++) { const pos = index % this._arity, start = index - pos; this._nodes[l][index] = node; node = this._hash(Array.from({ length: this._arity }, (_, i) => this._nodes[l][start + i] ?? this._zeroes[l])); index = Math.floor(index / this._arity); } this._nodes[this._depth][0] = node; this._root = node; }
  insert(x) { if (x === null || x === undefined) throw new Error("Parameter 'leaf' is not defined"); if (this._nodes[0].length >= this._arity ** this._depth) throw new Error("The tree is full"); this._set(this._nodes[0].length, x); }
  update(i, x) { if (i < 0 || i >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree"); this._set(i, x); }
  delete(i) { this.update(i, this._zeroes[0]); }
  createProof(index) {
    if (typeof index !== "number") throw new TypeError("Parameter 'index' is not a number"); if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    const leaf = this._nodes[0][index], siblings = [], pathIndices = [];
    for (let l = 0; l < this._depth; l++) { const pos = index % this._arity, start = index - pos; pathIndices.push(pos); siblings.push([]); for (let i = start; i < start + this._arity; i++) if (i !== index) siblings[l].push(this._nodes[l][i] ?? this._zeroes[l]); index = Math.floor(index / this._arity); }
    return { root: this._root, leaf, siblings, pathIndices };
  }
  verifyProof(p) { if (!p) throw new Error("Parameter 'proof' is not defined"); let node = p.leaf; for (let i = 0; i < p.siblings.length; i++) { const c = p.siblings[i].slice(); c.splice(p.pathIndices[i], 0, node); node = this._hash(c); } return p.root === node; }
}
