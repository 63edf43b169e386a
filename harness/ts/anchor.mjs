// The part of @coral-xyz/anchor 0.29 that needs no network: everything follows the IDL it is given.
import { createHash } from 'node:crypto';
import BN from './bn.mjs';
import { PublicKey, SystemProgram, TransactionInstruction, bs58 } from './web3.mjs';
import { ASSOCIATED_TOKEN_PROGRAM_ID, TOKEN_PROGRAM_ID } from './spl.mjs';

const snake = (s) => s.replace(/([a-z0-9])([A-Z])/g, '$1_$2').toLowerCase();
const camel = (s) => s.replace(/_+([a-z0-9])/gi, (_, c) => c.toUpperCase()).replace(/^./, (c) => c.toLowerCase());
const pascal = (s) => camel(s).replace(/^./, (c) => c.toUpperCase());
const disc = (text) => createHash('sha256').update(text).digest().subarray(0, 8);

export const utf8 = {
  decode: (x) => new TextDecoder('utf-8').decode(x),
  encode: (x) => new TextEncoder().encode(x),
};
export { bs58 };
export const base64 = { encode: (b) => Buffer.from(b).toString('base64'), decode: (s) => Buffer.from(s, 'base64') };
export const utils = { bytes: { utf8, bs58, base64 } };

const INTS = { u8: [1, 0], i8: [1, 1], u16: [2, 0], i16: [2, 1], u32: [4, 0], i32: [4, 1], u64: [8, 0], i64: [8, 1], usize: [8, 0], u128: [16, 0], i128: [16, 1] };

class Layouts {
  constructor(idl) {
    this.types = new Map();
    for (const t of [...(idl.types ?? []), ...(idl.accounts ?? [])]) this.types.set(t.name, t.type);
  }

  // [value, next offset]
  read(ty, b, o) {
    if (typeof ty === 'string') {
      if (INTS[ty]) {
        const [n, signed] = INTS[ty];
        if (o + n > b.length) throw new RangeError('Trying to access beyond buffer length');
        if (n <= 4) return [signed ? b.readIntLE(o, n) : b.readUIntLE(o, n), o + n];
        const v = new BN(b.subarray(o, o + n), 10, 'le');
        return [signed ? v.fromTwos(8 * n) : v, o + n];
      }
      switch (ty) {
        case 'bool':
          return [b.readUInt8(o) !== 0, o + 1];
        case 'f32':
          return [b.readFloatLE(o), o + 4];
        case 'f64':
          return [b.readDoubleLE(o), o + 8];
        case 'publicKey':
          if (o + 32 > b.length) throw new RangeError('Trying to access beyond buffer length');
          return [new PublicKey(b.subarray(o, o + 32)), o + 32];
        case 'string':
        case 'bytes': {
          const n = b.readUInt32LE(o);
          const d = b.subarray(o + 4, o + 4 + n);
          return [ty === 'string' ? d.toString('utf8') : Buffer.from(d), o + 4 + n];
        }
      }
    } else if ('array' in ty) {
      const [el, n] = ty.array;
      if (el === 'u8') return [Array.from(b.subarray(o, o + n)), o + n];
      const out = [];
      for (let i = 0, v; i < n; i++) {
        [v, o] = this.read(el, b, o);
        out.push(v);
      }
      return [out, o];
    } else if ('vec' in ty) {
      const n = b.readUInt32LE(o);
      return this.read({ array: [ty.vec, n] }, b, o + 4);
    } else if ('option' in ty) {
      return b.readUInt8(o) === 0 ? [null, o + 1] : this.read(ty.option, b, o + 1);
    } else if ('defined' in ty) {
      return this.readNamed(ty.defined, b, o);
    }
    throw new Error('Unknown type ' + JSON.stringify(ty));
  }

  readNamed(name, b, o) {
    const t = this.types.get(name);
    if (!t) throw new Error('User defined type not found: ' + name);
    const fields = (fs) => {
      const out = {};
      for (const f of fs ?? []) [out[camel(f.name)], o] = this.read(f.type, b, o);
      return out;
    };
    if (t.kind === 'enum') {
      const v = t.variants[b.readUInt8(o++)];
      return [{ [camel(v.name)]: fields(v.fields) }, o];
    }
    return [fields(t.fields), o];
  }

  write(ty, v) {
    if (typeof ty === 'string') {
      if (INTS[ty]) {
        const [n, signed] = INTS[ty];
        if (n <= 4) {
          const d = Buffer.alloc(n);
          if (signed) d.writeIntLE(v, 0, n);
          else d.writeUIntLE(v, 0, n);
          return d;
        }
        if (signed) v = v.toTwos(8 * n);
        return v.toArrayLike(Buffer, 'le', n);
      }
      switch (ty) {
        case 'bool':
          return Buffer.from([v ? 1 : 0]);
        case 'f32': {
          const d = Buffer.alloc(4);
          d.writeFloatLE(v);
          return d;
        }
        case 'f64': {
          const d = Buffer.alloc(8);
          d.writeDoubleLE(v);
          return d;
        }
        case 'publicKey':
          return v.toBuffer();
        case 'string':
        case 'bytes': {
          const d = Buffer.from(v);
          return Buffer.concat([this.write('u32', d.length), d]);
        }
      }
    } else if ('array' in ty) {
      return Buffer.concat(v.map((x) => this.write(ty.array[0], x)));
    } else if ('vec' in ty) {
      return Buffer.concat([this.write('u32', v.length), ...v.map((x) => this.write(ty.vec, x))]);
    } else if ('option' in ty) {
      return v === null || v === undefined ? Buffer.from([0]) : Buffer.concat([Buffer.from([1]), this.write(ty.option, v)]);
    } else if ('defined' in ty) {
      const t = this.types.get(ty.defined);
      if (!t) throw new Error('User defined type not found: ' + ty.defined);
      const fields = (fs, x) => Buffer.concat((fs ?? []).map((f) => this.write(f.type, x[camel(f.name)])));
      if (t.kind === 'struct') return fields(t.fields, v);
      const i = t.variants.findIndex((x) => camel(x.name) in v);
      if (i < 0) throw new Error('Unable to infer enum variant');
      return Buffer.concat([Buffer.from([i]), fields(t.variants[i].fields, v[camel(t.variants[i].name)])]);
    }
    throw new Error('Unknown type ' + JSON.stringify(ty));
  }
}

class Coder {
  constructor(idl) {
    const l = new Layouts(idl);
    const layout = (name) => ({ decode: (b) => l.readNamed(name, Buffer.from(b), 0)[0] });
    const names = new Map((idl.accounts ?? []).map((a) => [a.name, a.name]));
    const account = (name) => {
      const n = names.get(name) ?? names.get(pascal(name));
      if (!n || (name !== n && camel(n) !== name)) throw new Error('Unknown account: ' + name);
      return n;
    };
    this.layouts = l;
    this.types = {
      typeLayouts: { get: (name) => (l.types.has(name) ? layout(name) : undefined) },
      decode: (name, b) => {
        if (!l.types.has(name)) throw new Error('Unknown type: ' + name);
        return layout(name).decode(b);
      },
    };
    // these are used detached from the object
    this.accounts = {
      decode: (name, b) => {
        const n = account(name);
        b = Buffer.from(b);
        if (!disc('account:' + pascal(n)).equals(b.subarray(0, 8))) throw new Error('Invalid account discriminator');
        return l.readNamed(n, b, 8)[0];
      },
      decodeUnchecked: (name, b) => l.readNamed(account(name), Buffer.from(b), 8)[0],
      memcmp: (name) => ({ offset: 0, bytes: bs58.encode(disc('account:' + pascal(account(name)))) }),
    };
    this.events = {
      decode: (s) => {
        const b = Buffer.from(s, 'base64');
        for (const e of idl.events ?? []) {
          if (!disc('event:' + e.name).equals(b.subarray(0, 8))) continue;
          const data = {};
          let o = 8;
          for (const f of e.fields) [data[camel(f.name)], o] = l.read(f.type, b, o);
          return { name: e.name, data };
        }
        return null;
      },
    };
    this.instruction = {
      encode: (name, args) => {
        const ix = idl.instructions.find((i) => camel(i.name) === camel(name));
        if (!ix) throw new Error('Unknown method: ' + name);
        return Buffer.concat([disc('global:' + snake(ix.name)), ...ix.args.map((a) => l.write(a.type, args[a.name]))]);
      },
    };
  }
}

const KNOWN = { systemProgram: SystemProgram.programId, tokenProgram: TOKEN_PROGRAM_ID, associatedTokenProgram: ASSOCIATED_TOKEN_PROGRAM_ID };

export class Program {
  constructor(idl, programId, provider) {
    this.idl = idl;
    this.programId = new PublicKey(programId);
    this.provider = provider ?? getProvider();
    this.coder = new Coder(idl);
    this._coder = this.coder;
    this.methods = {};
    for (const ix of idl.instructions) this.methods[camel(ix.name)] = (...args) => this.builder(ix, args);
    this.account = {};
    for (const a of idl.accounts ?? []) this.account[camel(a.name)] = this.reader(a.name);
  }

  builder(ix, args) {
    const program = this;
    if (args.length !== ix.args.length) throw new Error('provided too ' + (args.length < ix.args.length ? 'few' : 'many') + ' arguments to ' + ix.name);
    let given = {};
    const rest = [];
    const data = program.coder.instruction.encode(ix.name, Object.fromEntries(ix.args.map((a, i) => [a.name, args[i]])));
    const b = {
      accounts(o) {
        Object.assign(given, o);
        return b;
      },
      accountsStrict: (o) => b.accounts(o),
      accountsPartial: (o) => b.accounts(o),
      remainingAccounts(l) {
        rest.push(...l);
        return b;
      },
      signers: () => b,
      preInstructions: () => b,
      postInstructions: () => b,
      async instruction() {
        const keys = ix.accounts.map((a) => {
          const name = camel(a.name);
          let k = given[name];
          if (k === undefined && a.isSigner && !a.isOptional) k = program.provider.wallet?.publicKey;
          if (k === undefined) k = KNOWN[name];
          if (k === undefined && name === 'eventAuthority')
            k = PublicKey.findProgramAddressSync([Buffer.from('__event_authority')], program.programId)[0];
          if (k === undefined && name === 'program') k = program.programId;
          if (k === undefined && a.pda) k = program.derive(ix, a, given, args);
          if (a.isOptional && (k === null || k === undefined)) return { pubkey: program.programId, isWritable: false, isSigner: false };
          if (k === null || k === undefined) throw new Error('Account `' + name + '` not provided.');
          return { pubkey: k.publicKey ?? k, isWritable: !!a.isMut, isSigner: !!a.isSigner };
        });
        return new TransactionInstruction({ keys: [...keys, ...rest], programId: program.programId, data });
      },
    };
    return b;
  }

  derive(ix, a, given, args) {
    const seeds = a.pda.seeds.map((s) => {
      if (s.kind === 'const') return s.type === 'string' ? Buffer.from(s.value) : this.coder.layouts.write(s.type, s.value);
      if (s.kind === 'arg') return this.coder.layouts.write(s.type, args[ix.args.findIndex((x) => x.name === s.path)]);
      const k = given[camel(s.path)];
      return k ? (k.publicKey ?? k).toBuffer() : null;
    });
    return seeds.includes(null) ? undefined : PublicKey.findProgramAddressSync(seeds, this.programId)[0];
  }

  reader(name) {
    const program = this;
    const decode = (ai) => {
      if (!ai) return null;
      return program.coder.accounts.decode(name, ai.data);
    };
    return {
      async fetchNullable(k) {
        return decode(await program.provider.connection.getAccountInfo(new PublicKey(k)));
      },
      async fetch(k) {
        const x = await this.fetchNullable(k);
        if (x === null) throw new Error('Account does not exist or has no data ' + k);
        return x;
      },
      async fetchMultiple(ks) {
        return (await program.provider.connection.getMultipleAccountsInfo(ks.map((k) => new PublicKey(k)))).map(decode);
      },
    };
  }
}

let current = null;
export const getProvider = () => current;
export const setProvider = (p) => {
  current = p;
};
export class AnchorProvider {
  constructor(connection, wallet, opts = {}) {
    this.connection = connection;
    this.wallet = wallet;
    this.opts = opts;
    this.publicKey = wallet?.publicKey;
  }
  static defaultOptions() {
    return { preflightCommitment: 'processed', commitment: 'processed' };
  }
}
export class Wallet {
  constructor(payer) {
    this.payer = payer;
  }
  get publicKey() {
    return this.payer.publicKey;
  }
  async signTransaction(tx) {
    return tx;
  }
  async signAllTransactions(txs) {
    return txs;
  }
}
export default Wallet;
export { BN };
export const web3 = {};
