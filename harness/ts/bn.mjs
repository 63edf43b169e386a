// Big integers with the interface of bn.js.
const int = (x, base = 10) => {
  if (x instanceof BN) return x.v;
  if (typeof x === 'bigint') return x;
  if (typeof x === 'number') {
    if (!Number.isSafeInteger(x)) throw new Error('Assertion failed');
    return BigInt(x);
  }
  if (typeof x === 'string') {
    const neg = x.startsWith('-');
    const s = neg ? x.slice(1) : x;
    if (base === 'hex' || base === 16) return neg ? -BigInt('0x' + s) : BigInt('0x' + s);
    if (!/^[0-9]+$/.test(s)) throw new Error('Invalid character');
    return neg ? -BigInt(s) : BigInt(s);
  }
  if (x && typeof x.length === 'number') {
    let v = 0n;
    for (const b of x) v = (v << 8n) | BigInt(b);
    return v;
  }
  throw new Error('Assertion failed');
};
const num = (n) => {
  if (typeof n !== 'number' || !(Math.abs(n) < 0x4000000)) throw new Error('Assertion failed');
  return BigInt(n);
};
const other = (b) => {
  if (!(b instanceof BN)) throw new TypeError('not a BN');
  return b.v;
};
const abs = (v) => (v < 0n ? -v : v);
const cmp = (a, b) => (a < b ? -1 : a > b ? 1 : 0);

export default class BN {
  constructor(x = 0, base = 10, endian = 'be') {
    if (base === 'le' || base === 'be') [base, endian] = [10, base];
    if (x && typeof x === 'object' && !(x instanceof BN) && endian === 'le') x = Array.from(x).reverse();
    this.v = int(x, base);
  }
  static isBN(x) {
    return x instanceof BN;
  }
  static max(a, b) {
    return a.v > b.v ? a : b;
  }
  static min(a, b) {
    return a.v < b.v ? a : b;
  }
  clone() {
    return new BN(this.v);
  }
  toString(base = 10, pad = 0) {
    const s = abs(this.v).toString(base === 'hex' ? 16 : base);
    const w = pad ? Math.ceil(s.length / pad) * pad : 0;
    return (this.v < 0n ? '-' : '') + s.padStart(w, '0');
  }
  toJSON() {
    return this.toString(16);
  }
  toNumber() {
    if (abs(this.v) > BigInt(Number.MAX_SAFE_INTEGER)) throw new Error('Number can only safely store up to 53 bits');
    return Number(this.v);
  }
  bitLength() {
    return this.v === 0n ? 0 : abs(this.v).toString(2).length;
  }
  byteLength() {
    return Math.ceil(this.bitLength() / 8);
  }
  toArray(endian = 'be', length) {
    const out = [];
    for (let v = abs(this.v); v > 0n; v >>= 8n) out.push(Number(v & 255n));
    if (length === undefined) length = Math.max(1, out.length);
    if (out.length > length) throw new Error('byte array longer than desired length');
    while (out.length < length) out.push(0);
    return endian === 'le' ? out : out.reverse();
  }
  toArrayLike(type, endian = 'be', length) {
    return type === Buffer ? Buffer.from(this.toArray(endian, length)) : type.from(this.toArray(endian, length));
  }
  toBuffer(endian, length) {
    return this.toArrayLike(Buffer, endian, length);
  }
  isNeg() {
    return this.v < 0n;
  }
  isZero() {
    return this.v === 0n;
  }
  isEven() {
    return (this.v & 1n) === 0n;
  }
  isOdd() {
    return (this.v & 1n) === 1n;
  }
  ineg() {
    this.v = -this.v;
    return this;
  }
  iabs() {
    this.v = abs(this.v);
    return this;
  }
  cmp(b) {
    return cmp(this.v, other(b));
  }
  ucmp(b) {
    return cmp(abs(this.v), abs(other(b)));
  }
  cmpn(n) {
    return cmp(this.v, num(n));
  }
  divmod(b) {
    return { div: this.div(b), mod: this.mod(b) };
  }
  divRound(b) {
    const d = other(b);
    const q = this.v / d;
    const r = abs(this.v % d) * 2n;
    return new BN(r >= abs(d) ? q + ((this.v < 0n) !== (d < 0n) ? -1n : 1n) : q);
  }
  gcd(b) {
    let [x, y] = [abs(this.v), abs(other(b))];
    while (y) [x, y] = [y, x % y];
    return new BN(x);
  }
  toTwos(width) {
    return new BN(this.v < 0n ? (1n << BigInt(width)) + this.v : this.v);
  }
  fromTwos(width) {
    const top = 1n << BigInt(width - 1);
    return new BN(this.v & top ? this.v - (top << 1n) : this.v);
  }
  imaskn(n) {
    if (this.v < 0n) throw new Error('imaskn works only with positive numbers');
    this.v &= (1n << BigInt(n)) - 1n;
    return this;
  }
  maskn(n) {
    return this.clone().imaskn(n);
  }
  testn(n) {
    return ((this.v >> BigInt(n)) & 1n) === 1n;
  }
  sqr() {
    return new BN(this.v * this.v);
  }
  pow(b) {
    return new BN(this.v ** other(b));
  }
  subn(n) {
    return new BN(this.v - num(n));
  }
}

const ops = {
  add: (a, b) => a + b,
  sub: (a, b) => a - b,
  mul: (a, b) => a * b,
};
const check = (b) => {
  if (b === 0n) throw new Error('Assertion failed');
  return b;
};
const more = {
  div: (a, b) => a / check(b),
  mod: (a, b) => a % check(b),
  umod: (a, b) => ((a % check(b)) + abs(b)) % abs(b),
  or: (a, b) => a | b,
  and: (a, b) => a & b,
  xor: (a, b) => a ^ b,
};
for (const [k, f] of Object.entries({ ...ops, ...more })) {
  BN.prototype[k] = function (b) {
    return new BN(f(this.v, other(b)));
  };
  BN.prototype['i' + k] = function (b) {
    this.v = f(this.v, other(b));
    return this;
  };
  BN.prototype[k + 'n'] = function (n) {
    return new BN(f(this.v, num(n)));
  };
  BN.prototype['i' + k + 'n'] = function (n) {
    this.v = f(this.v, num(n));
    return this;
  };
}
BN.prototype.modn = BN.prototype.modrn = function (n) {
  return Number(this.v % num(n));
};
BN.prototype.neg = function () {
  return this.clone().ineg();
};
BN.prototype.abs = function () {
  return this.clone().iabs();
};
for (const u of ['', 'u']) {
  BN.prototype[u + 'shln'] = function (n) {
    return new BN(this.v << BigInt(n));
  };
  BN.prototype['i' + u + 'shln'] = function (n) {
    this.v <<= BigInt(n);
    return this;
  };
  BN.prototype[u + 'shrn'] = function (n) {
    return new BN(this.v < 0n ? -(abs(this.v) >> BigInt(n)) : this.v >> BigInt(n));
  };
  BN.prototype['i' + u + 'shrn'] = function (n) {
    this.v = this[u + 'shrn'](n).v;
    return this;
  };
}
for (const [k, f] of Object.entries({
  gt: (c) => c > 0,
  gte: (c) => c >= 0,
  lt: (c) => c < 0,
  lte: (c) => c <= 0,
  eq: (c) => c === 0,
})) {
  BN.prototype[k] = function (b) {
    return f(this.cmp(b));
  };
  BN.prototype[k + 'n'] = function (n) {
    return f(this.cmpn(n));
  };
}
export { BN };
