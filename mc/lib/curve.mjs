// secp256k1 over BigInt, from the textbook formulas.
export const P = (1n << 256n) - 0x1000003d1n;
export const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
export const G = [0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n];
export const mod = (a, m) => { const r = a % m; return r < 0n ? r + m : r; };
export const inv = (a, m) => { let [x, y, u, v] = [mod(a, m), m, 1n, 0n]; while (x) { const q = y / x; [x, y, u, v] = [y - q * x, x, v - q * u, u]; } return y === 1n ? mod(v, m) : null; };
export const pow = (b, e, m) => { let r = 1n; b = mod(b, m); for (; e; e >>= 1n) { if (e & 1n) r = r * b % m; b = b * b % m; } return r; };
export const onCurve = a => a === null || mod(a[1] * a[1] - a[0] ** 3n - 7n, P) === 0n;
export const neg = a => a && [a[0], mod(-a[1], P)];
export function add(a, b) {
  if (!a) return b; if (!b) return a;
  let l; if (a[0] === b[0]) { if (mod(a[1] + b[1], P) === 0n) return null; l = 3n * a[0] * a[0] * inv(2n * a[1], P); } else l = (b[1] - a[1]) * inv(b[0] - a[0], P);
  l = mod(l, P); const x = mod(l * l - a[0] - b[0], P); return [x, mod(l * (a[0] - x) - a[1], P)];
}
// Jacobian double-and-add
export function mul(a, k) {
  if (!a) return null; k = mod(k, N); let X = 0n, Y = 1n, Z = 0n; const [x, y] = a;
  for (const bit of k.toString(2)) {
    if (Z) { const S = 4n * X * Y * Y % P, M = 3n * X * X % P, X3 = mod(M * M - 2n * S, P); const Y3 = mod(M * (S - X3) - 8n * Y ** 4n, P); Z = 2n * Y * Z % P; X = X3; Y = Y3; }
    if (bit === "1") {
      if (!Z) { X = x; Y = y; Z = 1n; continue; }
      const Z2 = Z * Z % P, U = x * Z2 % P, S = y * Z2 * Z % P, H = mod(U - X, P), R = mod(S - Y, P);
      if (!H) { const aff = [X * inv(Z2, P) % P, Y * inv(Z2 * Z, P) % P], s = add(aff, a); if (s) [X, Y, Z] = [...s, 1n]; else [X, Y, Z] = [0n, 1n, 0n]; continue; }
      const H2 = H * H % P, H3 = H2 * H % P, V = X * H2 % P, X3 = mod(R * R - H3 - 2n * V, P); Y = mod(R * (V - X3) - Y * H3, P); X = X3; Z = Z * H % P;
    }
  }
  if (!Z) return null; const zi = inv(Z, P), z2 = zi * zi % P; return [X * z2 % P, Y * z2 * zi % P];
}
export const liftX = (x, odd) => { const y2 = mod(x ** 3n + 7n, P), y = pow(y2, (P + 1n) / 4n, P); if (y * y % P !== y2) return null; return [mod(x, P), (y & 1n) === (odd ? 1n : 0n) ? y : mod(-y, P)]; };
export const sign = (d, m, k) => { const R = mul(G, k), r = mod(R[0], N), s = mod(inv(k, N) * (m + r * d), N); return { R, r, s, v: 27n + (R[1] & 1n) }; };
