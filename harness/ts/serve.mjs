// Answers questions about accounts with the TypeScript client: one JSON line in, one out.
//   {put: [[address, owner, lamports, data]], gone: [address], now, ask: {...}}
import { register } from 'node:module';
import { createHash } from 'node:crypto';
import { createInterface } from 'node:readline';

process.removeAllListeners('warning');
process.on('warning', () => {});
console.log = console.warn = console.error = () => {};
register('./hooks.mjs', import.meta.url);

const root = process.argv[2];
const ts = await import('file://' + root + '/index.ts');
const { PublicKey, Keypair, ComputeBudgetProgram, bs58 } = await import('./web3.mjs');
const { AnchorProvider, BN } = await import('./anchor.mjs');

const accounts = new Map();
const info = (k) => accounts.get(k.toBase58()) ?? null;
const sent = [];
const connection = {
  commitment: 'processed',
  getAccountInfo: async (k) => info(k),
  getMultipleAccountsInfo: async (ks) => ks.map(info),
  getMinimumBalanceForRentExemption: async (n) => (n + 128) * 6960,
  getLatestBlockhash: async () => ({ blockhash: PublicKey.default.toBase58(), lastValidBlockHeight: 1 }),
  sendRawTransaction: async (tx) => {
    sent.push(tx);
    return 'signature' + sent.length;
  },
  confirmTransaction: async () => ({ value: { err: null } }),
  subs: new Map(),
  onAccountChange(k, f) {
    const id = this.subs.size + 100;
    this.subs.set(id, [k, f]);
    return id;
  },
  async removeAccountChangeListener(id) {
    this.subs.delete(id);
  },
  // equality of bytes at an offset, as the servers filter
  _rpcRequest: async (method, [program, { filters }]) => ({
    error: null,
    result: [...accounts]
      .filter(([, a]) => a.owner.toBase58() === program)
      .filter(([, a]) =>
        filters.every(({ memcmp: { offset, bytes } }) => {
          const want = new PublicKey(bytes).toBuffer();
          return want.equals(a.data.subarray(offset, offset + 32));
        }),
      )
      .map(([pubkey, a]) => ({
        pubkey,
        account: { data: [a.data.toString('base64'), 'base64'], executable: false, owner: a.owner.toBase58(), lamports: a.lamports },
      })),
  }),
};

const pk = (s) => (s === null || s === undefined ? null : new PublicKey(s));
const signer = (s) => (s === null || s === undefined ? undefined : Keypair.of(pk(s)));
// the wallet signs whatever it is given
class Signing {
  constructor(key) {
    this.payer = Keypair.of(key);
    this.publicKey = key;
  }
  async signTransaction(tx) {
    tx.sign([this.payer]);
    return tx;
  }
}
const client = (wallet, opts) =>
  new ts.OpenBookV2Client(new AnchorProvider(connection, new Signing(pk(wallet)), AnchorProvider.defaultOptions()), undefined, opts);

const TYPES = ['Limit', 'ImmediateOrCancel', 'PostOnly', 'Market', 'PostOnlySlide', 'FillOrKill'];
const SELF = ['DecrementTake', 'CancelProvide', 'AbortTransaction'];
const type = (n) => ts.PlaceOrderTypeUtils[TYPES[n]];
const side = (n) => (n === 0 ? ts.SideUtils.Bid : ts.SideUtils.Ask);
const bn = (x) => new BN(String(x));

// instructions for an action whose addresses and amounts have been filled in
const build = async (q) => {
  const c = client(q.wallet, q.referrer ? { referrerWallet: pk(q.referrer) } : {});
  const market = await ts.Market.load(c, pk(q.market));
  const acct = market.account;
  const oo = q.oo ? await ts.OpenOrders.load(pk(q.oo), market) : null;
  const delegate = signer(q.delegate);
  if (oo && delegate) oo.setDelegate(delegate);
  const rem = (q.rem ?? []).map(pk);
  const [ub, uq] = [pk(q.ub), pk(q.uq)];
  const one = (x) => (Array.isArray(x) ? { ixs: [x[0]].flat(), signers: x[1] } : { ixs: [x].flat(), signers: [] });
  const args = () => ({
    side: side(q.sd),
    priceLots: bn(q.px),
    maxBaseLots: bn(q.mb),
    maxQuoteLotsIncludingFees: bn(q.mq),
    clientOrderId: bn(q.cid ?? 0),
    orderType: type(q.ty),
    expiryTimestamp: bn(q.exp ?? 0),
    selfTradeBehavior: ts.SelfTradeBehaviorUtils[SELF[q.stp ?? 0]],
    limit: q.lim,
  });
  const several = (l) => l.map((o) => ({ priceLots: bn(o.px), maxQuoteLotsIncludingFees: bn(o.mq), expiryTimestamp: bn(o.exp) }));
  const transaction = async (run) => {
    sent.length = 0;
    await run();
    const t = sent[0];
    return { ixs: t.message.instructions, signers: [], signed: t.signers };
  };
  const meta = (l) => l.map((pubkey) => ({ pubkey, isSigner: false, isWritable: true }));
  const none = (o) => (o.key.equals(PublicKey.default) ? null : o.key);
  const named = () => ({
    signer: pk(q.wallet),
    owner: pk(q.wallet),
    penaltyPayer: pk(q.wallet),
    openOrdersAccount: oo?.pubkey,
    openOrdersAdmin: pk(q.admin),
    closeMarketAdmin: pk(q.admin ?? q.wallet),
    collectFeeAdmin: pk(q.admin ?? q.wallet),
    market: market.pubkey,
    marketAuthority: acct.marketAuthority,
    bids: acct.bids,
    asks: acct.asks,
    eventHeap: acct.eventHeap,
    marketBaseVault: acct.marketBaseVault,
    marketQuoteVault: acct.marketQuoteVault,
    marketVault: q.sd === 0 ? acct.marketQuoteVault : acct.marketBaseVault,
    oracleA: none(acct.oracleA),
    oracleB: none(acct.oracleB),
    userTokenAccount: pk(q.ut),
    userBaseAccount: ub,
    userQuoteAccount: uq,
    referrerAccount: pk(q.ref),
    tokenReceiverAccount: pk(q.dq),
    delegateAccount: pk(q.dl),
  });
  switch (q.how) {
    case 'place':
      return one(await c.placeOrderIx(oo.pubkey, market.pubkey, acct, pk(q.ut), args(), rem, delegate));
    case 'placeui': {
      const a = args();
      const order = {
        side: a.side,
        price: market.priceLotsToUi(a.priceLots),
        size: market.baseLotsToUi(a.maxBaseLots),
        clientOrderId: Number(q.cid),
        orderType: q.ty === 0 ? undefined : a.orderType,
        expiryTimestamp: q.exp === 0 ? undefined : Number(q.exp),
        selfTradeBehavior: q.stp === 0 ? undefined : a.selfTradeBehavior,
        matchLoopLimit: q.lim === 16 ? undefined : q.lim,
      };
      if (q.rem !== undefined) return one(await oo.placeOrderIx(order, pk(q.ut), rem));
      await market.loadOrderBook();
      return transaction(() => oo.placeOrder(order));
    }
    case 'pegged': {
      const { priceLots, ...a } = args();
      const args2 = { ...a, priceOffsetLots: priceLots, pegLimit: bn(q.plim) };
      return one(await c.placeOrderPeggedIx(oo.pubkey, market.pubkey, acct, pk(q.ut), pk(q.admin), args2, rem, delegate));
    }
    case 'take':
      return one(await c.placeTakeOrderIx(market.pubkey, acct, ub, uq, pk(q.admin), args(), rem, delegate));
    case 'multi':
      return one(
        await c[q.can === 1 ? 'cancelAllAndPlaceOrdersIx' : 'placeOrdersIx'](
          oo.pubkey, market.pubkey, acct, ub, uq, pk(q.admin), type(q.ty), several(q.bids), several(q.asks), q.lim, delegate),
      );
    case 'cancel':
      return one(await c.cancelOrderByIdIx(oo.pubkey, oo.account, acct, bn(q.id), delegate));
    case 'cancelui': {
      await market.loadOrderBook();
      const order = [...oo.items()].find((o) => o.leafNode.key.eq(bn(q.id)));
      if (!order) throw new Error('not listed');
      return transaction(() => oo.cancelOrder(order));
    }
    case 'ccid':
      return one(await oo.cancelOrderByClientIdIx(bn(q.cid)));
    case 'ccidui':
      return transaction(() => oo.cancelOrder({ clientOrderId: Number(q.cid) }));
    case 'call':
      return one(await c.cancelAllOrdersIx(oo.pubkey, oo.account, acct, q.lim, q.sd === -1 ? null : side(q.sd), delegate));
    case 'callui':
    case 'settleui':
      return transaction(() => oo.cancelAllOrders(q.sd === -1 ? null : side(q.sd)));
    case 'prune':
      return one(await c.pruneOrdersIx(market.pubkey, acct, oo.pubkey, q.lim, signer(q.admin) ?? null));
    case 'consume':
      return one(await c.consumeEventsIx(market.pubkey, acct, bn(q.lim), rem));
    case 'consumeg':
      return one(await c.consumeGivenEventsIx(market.pubkey, acct, q.sl.map(bn), rem));
    case 'consumefor':
      return one(await c.consumeEventsForAccountIx(market.pubkey, acct, pk(q.oo)));
    case 'deposit':
      return one(await c.depositIx(oo.pubkey, oo.account, acct, ub, uq, bn(q.b), bn(q.q)));
    case 'settle':
      return one(await oo.settleFundsIx(pk(q.db), pk(q.dq), pk(q.ref), pk(q.wallet)));
    case 'closem':
      return one(await c.closeMarketIx(market.pubkey, acct, pk(q.dest), signer(q.admin) ?? null));
    case 'closeooa':
      return one(await c.closeOpenOrdersAccountIx(signer(q.owner), oo.pubkey));
    // instructions the client has no function for, by its description of the program
    case 'edit':
      return one(await c.program.methods.editOrder(bn(q.ecid), bn(q.esz), args()).accounts(named()).remainingAccounts(meta(rem)).instruction());
    case 'editpegged': {
      const { priceLots, ...a } = args();
      const args2 = { ...a, priceOffsetLots: priceLots, pegLimit: bn(q.plim) };
      return one(await c.program.methods.editOrderPegged(bn(q.ecid), bn(q.esz), args2).accounts(named()).remainingAccounts(meta(rem)).instruction());
    }
    case 'refill':
      return one(await c.program.methods.refill(bn(q.b), bn(q.q)).accounts(named()).instruction());
    case 'settlex':
      return one(await c.program.methods.settleFundsExpired().accounts({ ...named(), userBaseAccount: pk(q.db), userQuoteAccount: pk(q.dq) }).instruction());
    case 'sweep':
      return one(await c.program.methods.sweepFees().accounts(named()).instruction());
    case 'setexp':
      return one(await c.program.methods.setMarketExpired().accounts(named()).instruction());
    case 'setdel':
      return one(await c.program.methods.setDelegate().accounts(named()).instruction());
  }
  throw new Error('unknown action ' + q.how);
};

// instructions about accounts and markets, which need none to exist
const setup = async (q) => {
  const c = client(q.wallet);
  const [ixs, signers] = await (async () => {
    switch (q.how) {
      case 'indexer':
        return [[await c.createOpenOrdersIndexerIx(c.findOpenOrdersIndexer(pk(q.owner)), pk(q.owner))], []];
      case 'ooa': {
        const [l] = await c.createOpenOrdersIx(pk(q.market), q.name, pk(q.owner), pk(q.delegate));
        return [l, []];
      }
      case 'closeindexer':
        return c.closeOpenOrdersIndexerIx(signer(q.owner), (await ts.Market.load(c, pk(q.market))).account);
      case 'closeooa':
        return c.closeOpenOrdersAccountIx(signer(q.owner), pk(q.ooa), pk(q.dest));
      case 'market':
        return c.createMarketIx(
          pk(q.wallet), q.name, pk(q.quote), pk(q.base), bn(q.qls), bn(q.bls), bn(q.mf), bn(q.tf), bn(q.exp), pk(q.oa), pk(q.ob),
          pk(q.ooadm), pk(q.ceadm), pk(q.cmadm), { confFilter: q.conf, maxStalenessSlots: q.stale }, signer(q.market), pk(q.feeadm) ?? undefined);
    }
    throw new Error('unknown request ' + q.how);
  })();
  return { ixs: [ixs].flat(), signers };
};

const plain = (r) => ({
  ixs: r.ixs.map((i) => ({
    program: i.programId.toBase58(),
    keys: i.keys.map((k) => [k.pubkey.toBase58(), k.isSigner ? 1 : 0, k.isWritable ? 1 : 0]),
    data: Buffer.from(i.data).toString('hex'),
  })),
  signers: r.signers.map((s) => s.publicKey.toBase58()),
  signed: r.signed ? r.signed.map((k) => k.toBase58()) : null,
});

// ---- what the client makes of the accounts ----------------------------------------------

const s = (x) => String(x);
// a number people read: digits and power of ten
const num = (x) => {
  const [d, e] = Number(Number(x).toPrecision(10)).toExponential().split('e');
  const [i, f = ''] = d.split('.');
  return Number(i + f) === 0 ? [0, 0] : [Number(i + f), Number(e) - f.length];
};
const order = (o) => ({
  px: s(o.priceLots),
  q: s(o.sizeLots),
  seq: s(o.seqNum),
  own: s(o.leafNode.owner),
  slot: o.leafNode.ownerSlot,
  ts: s(o.leafNode.timestamp),
  tif: o.leafNode.timeInForce,
  cid: s(o.leafNode.clientOrderId),
  plim: s(o.leafNode.pegLimit),
  old: o.isExpired ? 1 : 0,
  price: num(o.price),
  size: num(o.size),
});
const event = (e) =>
  e.eventType === ts.EventType.Fill
    ? {
        ty: 0, sd: e.takerSide, out: e.makerOut, slot: e.makerSlot, ts: s(e.timestamp), seq: s(e.marketSeqNum ?? e.seqNum), own: s(e.maker), mts: s(e.makerTimestamp),
        tk: s(e.taker), tcid: s(e.takerClientOrderId), px: s(e.price), plim: s(e.pegLimit), q: s(e.quantity), mcid: s(e.makerClientOrderId),
      }
    : { ty: 1, sd: e.side, slot: e.ownerSlot, ts: s(e.timestamp), own: s(e.owner), q: s(e.quantity) };

// transactions of the program, some of which announce a market
const listed = async (programId, m) => {
  const event = PublicKey.findProgramAddressSync([Buffer.from('__event_authority')], programId)[0];
  const tag = createHash('sha256').update('event:MarketMetaDataLog').digest().subarray(0, 8);
  const text = (t) => Buffer.concat([Buffer.from([t.length, 0, 0, 0]), Buffer.from(t)]);
  const key = (i) => new PublicKey(createHash('sha256').update('market' + i).digest());
  const data = (i) =>
    Buffer.concat([Buffer.alloc(8, 9), tag, key(i).toBuffer(), text('M' + i), m.baseMint.toBuffer(), m.quoteMint.toBuffer(),
      Buffer.from([m.baseDecimals, m.quoteDecimals]), Buffer.alloc(16)]);
  const tx = (i) => ({
    blockTime: i,
    meta: i % 7 === 3 ? { innerInstructions: null } : {
      innerInstructions: [{ instructions: Array.from({ length: i % 5 === 1 ? 4 : 12 }, (_, n) => ({
        accounts: [i % 11 === 2 ? 0 : 1], programIdIndex: i % 13 === 4 ? 0 : 2, data: n === 11 ? bs58.encode(data(i)) : '' })) }],
    },
    transaction: { message: { staticAccountKeys: [PublicKey.default, event, programId] } },
  });
  const n = 130;
  const node = {
    getSignaturesForAddress: async (k) => (k.equals(event) ? Array.from({ length: n }, (_, i) => ({ signature: 'sig' + i })) : []),
    getTransactions: async (l) => l.map((x) => tx(Number(x.slice(3)))),
  };
  const got = await ts.findAllMarkets(node, programId, { connection: node });
  const told = Array.from({ length: n }, (_, i) => i).filter((i) => i % 7 !== 3 && i % 5 !== 1 && i % 11 !== 2 && i % 13 !== 4);
  const no = new Map(told.map((i) => [s(key(i)), i]));
  return {
    told,
    got: got.map((x) => {
      const i = no.get(x.market) ?? -1;
      return x.name === 'M' + i && x.timestamp === i && x.baseMint === s(m.baseMint) && x.quoteMint === s(m.quoteMint) ? i : -1;
    }),
  };
};

const view = async (q) => {
  const c = client(q.wallet);
  const market = await ts.Market.load(c, pk(q.market));
  await market.loadOrderBook();
  await market.loadEventHeap();
  const now = bn(q.now);
  const out = {};
  const m = market.account;
  out.m = {
    qls: s(m.quoteLotSize), bls: s(m.baseLotSize), mf: s(m.makerFee), tf: s(m.takerFee), exp: s(m.timeExpiry), seq: s(m.seqNum),
    facc: s(m.feesAccrued), fref: s(m.feesToReferrers), rracc: s(m.referrerRebatesAccrued), favail: s(m.feesAvailable),
    mvol: s(m.makerVolume), tvol: s(m.takerVolumeWoOo), bdt: s(m.baseDepositTotal), qdt: s(m.quoteDepositTotal),
    feeadm: s(m.collectFeeAdmin), ooadm: s(m.openOrdersAdmin.key), ceadm: s(m.consumeEventsAdmin.key), cmadm: s(m.closeMarketAdmin.key),
    bids: s(m.bids), asks: s(m.asks), heap: s(m.eventHeap), bmint: s(m.baseMint), qmint: s(m.quoteMint), bv: s(m.marketBaseVault), qv: s(m.marketQuoteVault),
    auth: s(m.marketAuthority), oa: s(m.oracleA.key), ob: s(m.oracleB.key), bdec: m.baseDecimals, qdec: m.quoteDecimals, name: ts.nameToString(m.name),
    stale: s(m.oracleConfig.maxStalenessSlots),
  };
  for (const [name, book] of [['bids', market.bids], ['asks', market.asks]]) {
    book.clusterTime = now;
    const pegged = book.rootOraclePegged.leafCount > 0;
    // the client does not know prices of pegged orders
    out[name] = [...(pegged ? book.fixedItems() : book.items())].map(order);
    out[name + 'l2'] = pegged ? null : book.getL2(q.depth).map(([p, n, pl, nl]) => [num(p), num(n), s(pl), s(nl)]);
    const best = pegged ? null : book.best();
    out[name + 'best'] = best ? s(best.seqNum) : '-1';
    // the account read by the general decoder says the same
    const again = new ts.BookSide(market, book.pubkey, await c.program.account.bookSide.fetch(book.pubkey), book.side);
    again.clusterTime = now;
    out[name + 'same'] = JSON.stringify([...again.fixedItems()].map(order)) === JSON.stringify([...book.fixedItems()].map(order)) ? 1 : 0;
  }
  out.ev = [...market.eventHeap.parsedEvents()].map(event);
  out.oos = [];
  for (const k of q.oos) {
    const key = pk(k);
    if (!info(key)) {
      out.oos.push(null);
      continue;
    }
    const oo = await ts.OpenOrders.load(key, market);
    const a = oo.account;
    const p = a.position;
    const pegged = a.openOrders.some((x) => !x.isFree && x.sideAndTree >= 2);
    const [base, quote] = oo.getBalanceNative();
    const items = pegged ? null : [...oo.items()].map((o) => s(o.seqNum));
    out.oos.push({
      m: s(a.market), ow: s(a.owner), dl: s(a.delegate.key), num: a.accountNum, bb: s(p.bidsBaseLots), ab: s(p.asksBaseLots), bf: s(p.baseFreeNative),
      qf: s(p.quoteFreeNative), lf: s(p.lockedMakerFees), rr: s(p.referrerRebatesAvailable), pen: s(p.penaltyHeapCount), mv: s(p.makerVolume),
      tv: s(p.takerVolume), bq: s(p.bidsQuoteLots),
      oo: a.openOrders.flatMap((x, i) => (x.isFree ? [] : [{ s: i, id: s(x.id), st: x.sideAndTree, cid: s(x.clientId), lp: s(x.lockedPrice) }])),
      base: s(base), quote: s(quote), nb: s(oo.getBaseBalanceNative()), nq: s(oo.getQuoteBalanceNative()),
      ub: num(oo.getBaseBalanceUi()), uq: num(oo.getQuoteBalanceUi()),
      items,
      text: pegged ? 1 : oo.toPrettyString().split('\n').filter((l) => /^ {2}side:/.test(l)).length === items.length ? 1 : 0,
      slots: (await c.getSlotsToConsume(key, m)).map(s),
    });
  }
  out.people = [];
  for (const k of q.people) {
    const own = pk(k);
    const list = (l) => l.map(s);
    const oo = await ts.OpenOrders.loadNullableForMarketAndOwner(market, own);
    const ix = await ts.OpenOrdersIndexer.loadNullable(c, own);
    out.people.push({
      all: list(await c.findAllOpenOrders(own)),
      here: list(await c.findOpenOrdersForMarket(own, market.pubkey)),
      first: oo ? s(oo.pubkey) : null,
      loaded: ix ? (await ix.loadAllOpenOrders()).map((x) => [s(x.pubkey), s(x.account.owner), s(x.market.pubkey), x.market.bids.rootFixed.leafCount]) : [],
    });
  }
  out.consume = (await c.getAccountsToConsume(m)).map(s);
  out.found = (await ts.findAccountsByMints(connection, m.baseMint, m.quoteMint, c.programId)).map((x) => s(x.publicKey));
  // what comes in by subscription
  connection.subs.clear();
  const first = out.oos.findIndex((x) => x !== null);
  const w = new ts.Watcher(connection).addMarket(market);
  const oo = first >= 0 ? await ts.OpenOrders.load(pk(q.oos[first]), market) : null;
  if (oo) w.addOpenOrders(oo);
  const before = JSON.stringify([market.account, market.eventHeap.account, oo?.account]);
  const orders = [...market.bids.fixedItems(), ...market.asks.fixedItems()].length;
  for (const x of [market, market.eventHeap, oo]) if (x) x.account = null;
  market.bids.account = market.asks.account = null;
  for (const [k, f] of connection.subs.values()) f(info(k));
  w.clear();
  out.watched =
    connection.subs.size === 0 &&
    before === JSON.stringify([market.account, market.eventHeap.account, oo?.account]) &&
    orders === [...market.bids.fixedItems(), ...market.asks.fixedItems()].length
      ? 1
      : 0;
  // amounts as people read them, and back
  out.ui = q.lots.map((l) => {
    const x = bn(l);
    const [price, base, quote] = [market.priceLotsToUi(x), market.baseLotsToUi(x), market.quoteLotsToUi(x)];
    return {
      price: [market.priceLotsToUi(x), ts.priceLotsToUi(m, x)].map(num),
      base: [market.baseLotsToUi(x), ts.baseLotsToUi(m, x), ts.quantityToUiBase(m, x, m.baseDecimals)].map(num),
      quote: [market.quoteLotsToUi(x), ts.quoteLotsToUi(m, x)].map(num),
      native: [market.baseNativeToUi(x), market.quoteNativeToUi(x), ts.priceNativeToUi(m, Number(l))].map(num),
      pnat: s(ts.priceLotsToNative(m, x)),
      back: [
        s(market.priceUiToLots(price)), s(market.baseUiToLots(base)), s(market.quoteUiToLots(quote)),
        s(ts.uiPriceToLots(m, price)), s(ts.uiBaseToLots(m, base)), s(ts.uiQuoteToLots(m, quote)),
      ],
    };
  });
  out.tick = num(market.tickSize.toNumber());
  out.min = num(market.minOrderSize.toNumber());
  out.listed = await listed(c.programId, m);
  return out;
};

// the accounts of people, over several markets
const lookup = async (q) => {
  const c = client(q.wallet);
  const markets = await Promise.all(q.markets.map((m) => ts.Market.load(c, pk(m))));
  const out = [];
  for (const k of q.people) {
    const own = pk(k);
    const ix = await ts.OpenOrdersIndexer.loadNullable(c, own);
    out.push({
      all: (await c.findAllOpenOrders(own)).map(s),
      here: await Promise.all(markets.map(async (m) => (await c.findOpenOrdersForMarket(own, m.pubkey)).map(s))),
      first: await Promise.all(
        markets.map(async (m) => {
          const [a, b] = [await ts.OpenOrders.loadNullableForMarketAndOwner(m, own), await ts.OpenOrders.loadNullableForMarketAndOwner(m, own, ix)];
          return a && b && a.pubkey.equals(b.pubkey) && a.account.market.equals(m.pubkey) ? s(a.pubkey) : a || b ? 'other' : null;
        }),
      ),
      loaded: !ix ? [] : (await ix.loadAllOpenOrders()).map((x) => [
        s(x.pubkey), s(x.account.owner), s(x.account.market), s(x.market.pubkey), s(x.account.delegate.key), x.account.accountNum,
        ts.nameToString(x.account.name), x.market.bids.rootFixed.leafCount, x.market.asks.rootFixed.leafCount,
      ]),
    });
  }
  return out;
};

// ---- transactions on their way -----------------------------------------------------------

const COMMITMENTS = [undefined, 'processed', 'confirmed', 'finalized'];
const idle = () => new Promise((r) => setImmediate(r));
const account = (n) => new PublicKey(createHash('sha256').update('account' + n).digest());
class NodeWallet {
  constructor(key) {
    this.payer = Keypair.of(key);
    this.publicKey = key;
  }
  async signTransaction(tx) {
    tx.sign([this.payer]);
    return tx;
  }
}

// everything that happened to requests of a client, from the start; what the last of it led to
const sending = async ({ cfg, acts }) => {
  const [told, calls] = [[], new Map()];
  let [from, sigs, ans] = [0, 0, []];
  const wait = (at, args) => new Promise((yes, no) => calls.set(from, { at, args, yes, no }));
  const node = {
    getLatestBlockhash: () => wait('hash', []),
    sendRawTransaction: (tx) => wait('send', [tx]),
    confirmTransaction: (...args) => wait('confirm', args),
  };
  const wallet = new (cfg.wal === 1 ? NodeWallet : Signing)(account(0));
  const c = new ts.OpenBookV2Client(new AnchorProvider(node, wallet, { commitment: COMMITMENTS[cfg.prov] }), undefined, {
    ...(cfg.fee ? { prioritizationFee: cfg.fee } : {}),
    ...(cfg.com ? { txConfirmationCommitment: COMMITMENTS[cfg.com] } : {}),
    ...(cfg.cb ? { postSendTxCallback: ({ txid }) => {
      told.push(Number(txid.slice(3)));
      if (cfg.cb === 2) throw new Error('not now');
    } } : {}),
  });
  const hash = (v) => ({ blockhash: 'hash' + v, lastValidBlockHeight: v });
  const begin = (r, p) => {
    const ixs = Array.from({ length: p.n }, (_, i) => ({ keys: [], programId: c.programId, data: Buffer.from([10 * r + i + 1]) }));
    const opts = {
      ...(p.fee === -1 ? {} : { prioritizationFee: p.fee === -2 ? null : p.fee }),
      ...(p.ex ? { additionalSigners: Array.from({ length: p.ex }, (_, i) => Keypair.of(account(i + 1))) } : {}),
      ...(p.alts ? { alts: Array.from({ length: p.alts }, (_, i) => ({ key: i + 1 })) } : {}),
      ...(p.given === 1 ? { latestBlockhash: hash(9) } : p.given === 2 ? { latestBlockhash: { blockhash: 'hash9' } } : {}),
      ...(p.com ? { txConfirmationCommitment: COMMITMENTS[p.com] } : {}),
    };
    const no = (x) => (/^sig\d+$/.test(x) ? Number(x.slice(3)) : 0);
    open.add(r);
    c.sendAndConfirmTransaction(ixs, opts).then(
      (x) => ans.push([r, 'done', no(x)]),
      (e) => ans.push([r, 'failed', no(e?.txid ?? '')]),
    ).then(() => open.delete(r));
  };
  const open = new Set();
  const answer = (at, r, yes, x) => {
    const q = calls.get(r);
    if (q?.at !== at) return;
    calls.delete(r);
    if (yes) q.yes(x());
    else q.no(new Error('no answer'));
  };
  for (const a of acts) {
    [from, ans] = [a.r, []];
    if (a.op === 'begin' && !open.has(a.r)) begin(a.r, a.p);
    if (a.op === 'hash') answer('hash', a.r, a.v, () => hash(a.v));
    if (a.op === 'take') answer('send', a.r, a.v, () => 'sig' + ++sigs);
    if (a.op === 'end') answer('confirm', a.r, a.v !== 'lost', () => ({ value: { err: a.v === 'ok' ? null : { InstructionError: [0, 'Custom'] } } }));
    await idle();
  }
  const who = (k) => [0, 1, 2, 3].findIndex((n) => account(n).equals(k));
  const at = (x) => (typeof x === 'string' && /^hash\d+$/.test(x) ? Number(x.slice(4)) : 0);
  const transaction = (t) => {
    const m = t.message;
    const ours = m.instructions.filter((i) => i.programId.equals(c.programId));
    const prices = m.instructions.filter((i) => i.programId.equals(ComputeBudgetProgram.programId) && i.data[0] === 3);
    return {
      pay: who(m.payerKey),
      ixs: ours.map((i) => i.data[0]),
      price: prices.length > 1 ? -1 : prices.length === 0 ? 0 : Number(Buffer.from(prices[0].data).readBigUInt64LE(1)),
      signed: t.signers.map(who),
      hash: at(m.recentBlockhash),
      alts: (m.addressLookupTableAccounts ?? []).map((x) => x.key),
    };
  };
  const state = (r) => {
    const q = calls.get(r);
    if (!q) return { at: open.has(r) ? 'lost' : 'idle' };
    if (q.at === 'send') return { at: 'send', tx: transaction(q.args[0]) };
    if (q.at === 'hash') return { at: 'hash' };
    const [s, com] = q.args;
    const by = typeof s === 'string' ? { signature: s } : s;
    return { at: 'confirm', sig: Number(by.signature.slice(3)), hash: at(by.blockhash), h: by.lastValidBlockHeight ?? 0, com: COMMITMENTS.indexOf(com) };
  };
  return { ans, told, req: [1, 2].map(state) };
};

// logs, read as the interface says and written again as the program does
const EVENTS = {
  DepositLog: 'openOrdersAccount:publicKey signer:publicKey baseAmount:u64 quoteAmount:u64',
  FillLog:
    'market:publicKey takerSide:u8 makerSlot:u8 makerOut:bool timestamp:u64 seqNum:u64 maker:publicKey makerClientOrderId:u64 makerFee:u64 ' +
    'makerTimestamp:u64 taker:publicKey takerClientOrderId:u64 takerFeeCeil:u64 price:i64 quantity:i64',
  TakerSignatureLog: 'market:publicKey seqNum:u64',
  TotalOrderFillEvent: 'side:u8 taker:publicKey totalQuantityPaid:u64 totalQuantityReceived:u64 fees:u64',
  SetDelegateLog: 'openOrdersAccount:publicKey delegate:?publicKey',
  SettleFundsLog: 'openOrdersAccount:publicKey baseNative:u64 quoteNative:u64 referrerRebate:u64 referrer:?publicKey',
  SweepFeesLog: 'market:publicKey amount:u64 receiver:publicKey',
  OpenOrdersPositionLog:
    'owner:publicKey openOrdersAccountNum:u32 market:publicKey bidsBaseLots:i64 bidsQuoteLots:i64 asksBaseLots:i64 baseFreeNative:u64 ' +
    'quoteFreeNative:u64 lockedMakerFees:u64 referrerRebatesAvailable:u64 makerVolume:u128 takerVolume:u128',
};
const reread = (l) => {
  const { coder } = client(account(0).toBase58()).program;
  return l.map((hex) => {
    try {
      const e = coder.events.decode(Buffer.from(hex, 'hex').toString('base64'));
      const fields = EVENTS[e.name].split(' ').map((f) => f.split(':'));
      const ty = (t) => (t[0] === '?' ? { option: t.slice(1) } : t);
      const tag = createHash('sha256').update('event:' + e.name).digest().subarray(0, 8);
      return Buffer.concat([tag, ...fields.map(([n, t]) => coder.layouts.write(ty(t), e.data[n]))]).toString('hex');
    } catch (e) {
      return '';
    }
  });
};

const answer = async (line) => {
  const r = JSON.parse(line);
  for (const [k, owner, lamports, data] of r.put) {
    accounts.set(k, { data: Buffer.from(data, 'hex'), owner: new PublicKey(owner), lamports, executable: false });
  }
  for (const k of r.gone) accounts.delete(k);
  try {
    if (r.ask.op === 'view') return await view(r.ask);
    if (r.ask.op === 'events') return { events: reread(r.ask.logs) };
    if (r.ask.op === 'sending') return await sending(r.ask);
    if (r.ask.op === 'lookup') return await lookup(r.ask);
    return plain(await (r.ask.op === 'setup' ? setup : build)(r.ask));
  } catch (e) {
    return { err: String(e?.message ?? e), at: process.env.VERIF_STACK ? String(e?.stack) : undefined };
  }
};

for await (const line of createInterface({ input: process.stdin })) process.stdout.write(JSON.stringify(await answer(line)) + '\n');
