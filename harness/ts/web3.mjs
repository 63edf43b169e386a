// The part of @solana/web3.js that needs no network.
import { createHash } from 'node:crypto';
import BN from './bn.mjs';

const ABC = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export const bs58 = {
  encode(bytes) {
    let n = 0n;
    for (const b of bytes) n = (n << 8n) | BigInt(b);
    let s = '';
    for (; n > 0n; n /= 58n) s = ABC[Number(n % 58n)] + s;
    for (const b of bytes) {
      if (b !== 0) break;
      s = '1' + s;
    }
    return s;
  },
  decode(s) {
    let n = 0n;
    for (const ch of s) {
      const d = ABC.indexOf(ch);
      if (d < 0) throw new Error('Non-base58 character');
      n = n * 58n + BigInt(d);
    }
    const out = [];
    for (; n > 0n; n >>= 8n) out.unshift(Number(n & 255n));
    for (const ch of s) {
      if (ch !== '1') break;
      out.unshift(0);
    }
    return Buffer.from(out);
  },
};

// edwards25519
const P = 2n ** 255n - 19n;
const power = (b, e) => {
  let r = 1n;
  for (b %= P; e > 0n; e >>= 1n, b = (b * b) % P) if (e & 1n) r = (r * b) % P;
  return r;
};
const D = (((P - 121665n) * power(121666n, P - 2n)) % P + P) % P;
const onCurve = (bytes) => {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 127 : bytes[i]);
  if (y >= P) y %= P;
  const u = (y * y - 1n + P) % P;
  const v = (D * y * y + 1n) % P;
  const x2 = (u * power(v, P - 2n)) % P;
  if (x2 === 0n) return (bytes[31] & 128) === 0;
  return power(x2, (P - 1n) / 2n) === 1n;
};

const addresses = new Map();
export class PublicKey {
  constructor(x) {
    if (x instanceof PublicKey) this.b = x.b;
    else if (typeof x === 'string') {
      const d = bs58.decode(x);
      if (d.length !== 32) throw new Error('Invalid public key input');
      this.b = d;
    } else if (x && x._bn) this.b = x._bn.toArrayLike(Buffer, 'be', 32);
    else {
      const d = typeof x === 'number' ? new BN(x).toArrayLike(Buffer, 'be', 32) : x instanceof BN ? x.toArrayLike(Buffer, 'be', 32) : Buffer.from(x);
      if (d.length > 32) throw new Error('Invalid public key input');
      this.b = Buffer.concat([Buffer.alloc(32 - d.length), d]);
    }
  }
  static unique() {
    return Keypair.generate().publicKey;
  }
  static isOnCurve(x) {
    return onCurve(new PublicKey(x).b);
  }
  static createProgramAddressSync(seeds, programId) {
    const h = createHash('sha256');
    for (const s of seeds) {
      if (s.length > 32) throw new TypeError('Max seed length exceeded');
      h.update(s);
    }
    const d = h.update(programId.toBuffer()).update('ProgramDerivedAddress').digest();
    if (onCurve(d)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(d);
  }
  static findProgramAddressSync(seeds, programId) {
    const id = seeds.map((s) => Buffer.from(s).toString('hex')).join('.') + '/' + programId;
    if (!addresses.has(id)) {
      for (let bump = 255; ; bump--) {
        if (bump === 0) throw new Error('Unable to find a viable program address nonce');
        try {
          addresses.set(id, [PublicKey.createProgramAddressSync([...seeds, Buffer.from([bump])], programId), bump]);
          break;
        } catch (e) {
          if (e instanceof TypeError) throw e;
        }
      }
    }
    const [a, bump] = addresses.get(id);
    return [new PublicKey(a), bump];
  }
  static async findProgramAddress(seeds, programId) {
    return PublicKey.findProgramAddressSync(seeds, programId);
  }
  static async createProgramAddress(seeds, programId) {
    return PublicKey.createProgramAddressSync(seeds, programId);
  }
  get _bn() {
    return new BN(this.b);
  }
  equals(o) {
    return this.b.equals(o.b);
  }
  toBase58() {
    return bs58.encode(this.b);
  }
  toJSON() {
    return this.toBase58();
  }
  toString() {
    return this.toBase58();
  }
  toBytes() {
    return new Uint8Array(this.b);
  }
  toBuffer() {
    return Buffer.from(this.b);
  }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');

let made = 0;
export class Keypair {
  constructor(pair) {
    this.pair = pair ?? { publicKey: createHash('sha256').update('keypair' + made++).digest() };
  }
  static generate() {
    return new Keypair();
  }
  static of(key) {
    return new Keypair({ publicKey: key.toBuffer() });
  }
  get publicKey() {
    return new PublicKey(this.pair.publicKey);
  }
  get secretKey() {
    return new Uint8Array(64);
  }
}

export class TransactionInstruction {
  constructor(o) {
    this.keys = o.keys;
    this.programId = o.programId;
    this.data = o.data ?? Buffer.alloc(0);
  }
}

export class Transaction {
  constructor() {
    this.instructions = [];
    this.signers = [];
  }
  add(...ixs) {
    for (const i of ixs) this.instructions.push(...(i instanceof Transaction ? i.instructions : [i]));
    return this;
  }
  partialSign(...signers) {
    this.signers.push(...signers.map((s) => s.publicKey));
  }
  sign(...signers) {
    this.signers = signers.map((s) => s.publicKey);
  }
}

export class MessageV0 {
  static compile(args) {
    return Object.assign(new MessageV0(), args);
  }
}

export class TransactionMessage {
  constructor(args) {
    Object.assign(this, args);
  }
  compileToV0Message(addressLookupTableAccounts) {
    return MessageV0.compile({ ...this, addressLookupTableAccounts });
  }
}

export class VersionedTransaction {
  constructor(message) {
    this.message = message;
    this.signers = [];
  }
  sign(signers) {
    this.signers.push(...signers.map((s) => s.publicKey));
  }
  serialize() {
    return this;
  }
}

const u64 = (n) => new BN(String(n)).toArrayLike(Buffer, 'le', 8);
const u32 = (n) => new BN(n).toArrayLike(Buffer, 'le', 4);
export class SystemProgram {
  static programId = PublicKey.default;
  static createAccount(p) {
    return new TransactionInstruction({
      keys: [
        { pubkey: p.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: p.newAccountPubkey, isSigner: true, isWritable: true },
      ],
      programId: SystemProgram.programId,
      data: Buffer.concat([u32(0), u64(p.lamports), u64(p.space), p.programId.toBuffer()]),
    });
  }
  static transfer(p) {
    return new TransactionInstruction({
      keys: [
        { pubkey: p.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: p.toPubkey, isSigner: false, isWritable: true },
      ],
      programId: SystemProgram.programId,
      data: Buffer.concat([u32(2), u64(p.lamports)]),
    });
  }
}

export class ComputeBudgetProgram {
  static programId = new PublicKey('ComputeBudget111111111111111111111111111111');
  static setComputeUnitPrice(p) {
    return new TransactionInstruction({
      keys: [],
      programId: ComputeBudgetProgram.programId,
      data: Buffer.concat([Buffer.from([3]), u64(p.microLamports)]),
    });
  }
  static setComputeUnitLimit(p) {
    return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId, data: Buffer.concat([Buffer.from([2]), u32(p.units)]) });
  }
}

export class Connection {}
export const SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');
export const LAMPORTS_PER_SOL = 1000000000;
