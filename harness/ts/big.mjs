// Decimal numbers with the interface of big.js: c * 10^e.
const norm = (c, e) => {
  if (c === 0n) return [0n, 0];
  while (c % 10n === 0n) {
    c /= 10n;
    e += 1;
  }
  return [c, e];
};
const abs = (v) => (v < 0n ? -v : v);
const read = (x) => {
  if (x instanceof Big) return [x.c, x.e];
  if (typeof x !== 'string' && typeof x !== 'number' && typeof x !== 'bigint') x = String(x);
  const m = /^(-?)(\d*)(?:\.(\d*))?(?:e([+-]?\d+))?$/i.exec(String(x));
  if (!m || !(m[2] || m[3])) throw new Error('[big.js] Invalid number');
  const f = m[3] ?? '';
  const c = BigInt(m[2] + f || '0');
  return norm(m[1] ? -c : c, Number(m[4] ?? 0) - f.length);
};
// c * 10^e with at most dp decimals
const round = (c, e, dp, rm = 1) => {
  if (-e <= dp) return [c, e];
  const d = 10n ** BigInt(-e - dp);
  const q = abs(c) / d;
  const r = (abs(c) % d) * 2n;
  const up = rm === 3 ? r > 0n : rm === 2 ? r > d || (r === d && q % 2n === 1n) : rm === 1 ? r >= d : false;
  const v = q + (up ? 1n : 0n);
  return norm(c < 0n ? -v : v, -dp);
};
const make = ([c, e]) => {
  const b = Object.create(Big.prototype);
  [b.c, b.e] = norm(c, e);
  return b;
};
const align = (a, b) => {
  const e = Math.min(a.e, b.e);
  return [a.c * 10n ** BigInt(a.e - e), b.c * 10n ** BigInt(b.e - e), e];
};

function Big(x) {
  if (!(this instanceof Big)) return new Big(x);
  [this.c, this.e] = read(x);
}
Big.DP = 20;
Big.RM = 1;
Object.assign(Big, { roundDown: 0, roundHalfUp: 1, roundHalfEven: 2, roundUp: 3 });
Object.assign(Big.prototype, {
  add(y) {
    const [a, b, e] = align(this, new Big(y));
    return make([a + b, e]);
  },
  sub(y) {
    const [a, b, e] = align(this, new Big(y));
    return make([a - b, e]);
  },
  mul(y) {
    const o = new Big(y);
    return make([this.c * o.c, this.e + o.e]);
  },
  div(y) {
    const o = new Big(y);
    if (o.c === 0n) throw new Error('[big.js] Division by zero');
    const k = 60 + Math.max(0, this.e - o.e) + o.c.toString().length;
    const n = this.c * 10n ** BigInt(k);
    const sticky = n % o.c === 0n ? 0n : n < 0n !== o.c < 0n ? -1n : 1n;
    return make(round((n / o.c) * 10n + sticky, this.e - o.e - k - 1, Big.DP, Big.RM));
  },
  mod(y) {
    const [a, b, e] = align(this, new Big(y));
    if (b === 0n) throw new Error('[big.js] Division by zero');
    return make([a % b, e]);
  },
  pow(n) {
    if (n !== ~~n) throw new Error('[big.js] Invalid exponent');
    const p = make([this.c ** BigInt(Math.abs(n)), this.e * Math.abs(n)]);
    return n < 0 ? new Big(1).div(p) : p;
  },
  abs() {
    return make([abs(this.c), this.e]);
  },
  neg() {
    return make([-this.c, this.e]);
  },
  cmp(y) {
    const [a, b] = align(this, new Big(y));
    return a < b ? -1 : a > b ? 1 : 0;
  },
  round(dp = 0, rm = Big.RM) {
    return make(round(this.c, this.e, dp, rm));
  },
  toFixed(dp, rm = Big.RM) {
    const [c, e] = dp === undefined ? [this.c, this.e] : round(this.c, this.e, dp, rm);
    const f = dp ?? Math.max(0, -e);
    const s = (abs(c) * 10n ** BigInt(e + f)).toString().padStart(f + 1, '0');
    return (c < 0n ? '-' : '') + (f ? s.slice(0, -f) + '.' + s.slice(-f) : s);
  },
  toString() {
    const d = abs(this.c).toString();
    const exp = this.e + d.length - 1;
    if (this.c === 0n || (exp < 21 && exp > -8)) return this.toFixed();
    return (this.c < 0n ? '-' : '') + d[0] + (d.length > 1 ? '.' + d.slice(1) : '') + 'e' + (exp < 0 ? '' : '+') + exp;
  },
  toNumber() {
    return Number(this.toString());
  },
});
const P = Big.prototype;
P.plus = P.add;
P.minus = P.sub;
P.times = P.mul;
P.valueOf = P.toJSON = P.toString;
P.eq = function (y) { return this.cmp(y) === 0; };
P.gt = function (y) { return this.cmp(y) > 0; };
P.gte = function (y) { return this.cmp(y) >= 0; };
P.lt = function (y) { return this.cmp(y) < 0; };
P.lte = function (y) { return this.cmp(y) <= 0; };
export default Big;
export { Big };
