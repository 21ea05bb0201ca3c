// I12: bundles and backups are verified before they are believed.
import { ts, strip, stripAwait, isFnLike, walkNodes, origins, storeOp, publicApi, enclosingFn, addMust, clearFacts, chain, thrownClass } from '../lib/common.mjs'
import { AbsObj } from '../lib/interp.mjs'
import { subtle } from '../lib/crypto.mjs'
import { outcome } from '../lib/decide.mjs'
import { recordRun, allOn } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('read', 'a bundle is interpreted only when magic, prefix, header, length and digest are right; every deviation is an error')
  rep.rule('header', 'a header with an unknown, missing or malformed field is refused when read and when written')
  rep.rule('written', 'a written bundle carries exactly the allowed header fields, with the length and digest of the very body it contains')
  rep.rule('gate', 'restoring ends normally only if the chain, the records and the embedded head of the chain agree')
  rep.rule('order', 'verification runs after everything was restored, on what was restored')
  rep.rule('verify', 'verification compares every live record of the ledger with what is stored')

  const api = publicApi(w).fns
  const byName = n => [...api].find(([f, m]) => m === n && f.body)?.[0]
  const fns = {}
  for (const n of ['readNoydbBundle', 'readNoydbBundleHeader', 'writeNoydbBundle', 'Vault.load', 'Vault.verifyBackupIntegrity']) { fns[n] = byName(n); if (!fns[n]) rep.missing('read', n) }
  if (Object.values(fns).some(f => !f)) return 'incomplete'

  // ── reading ──────────────────────────────────────────────────────────
  const D = 'ab'.repeat(32), ULID = '01HZX3YJ8K6Q4W2E9R7T5Y1V0M'
  const good = { formatVersion: 1, handle: ULID, bodyBytes: 3, bodySha256: D }
  const bytesOf = (o = {}) => [...(o.magic ?? [0x4e, 0x44, 0x42, 0x31]), 2 | (o.algo ? 1 : 0), o.algo ?? 0, 0, 0, o.hl1 ?? 0, o.hl ?? 2, 123, 125, ...(o.body ?? [201, 202, 203])]
  /** Function that returns the digest of its argument as text. */
  const digests = fn => { if (fn._dig !== undefined) return fn._dig; fn._dig = false; let y = false; if (fn.body) walkNodes(fn.body, n => { if (ts.isCallExpression(n) && subtle(w, n) === 'digest') y = true }); return (fn._dig = y) }
  const isDigest = e => ts.isCallExpression(e) && !subtle(w, e) && /^(Promise<string>|string)$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e))) && w.resolveCall(e).some(t => digests(t.fn))
  const eq = (a, b) => Array.isArray(a) && a.length === b.length && a.every((x, i) => x === b[i])
  const play = (fn, bytes, header, body) => {
    const log = []
    const assume = (e, ctx, I) => {
      if (isDigest(e)) { const v = I.constEval(e.arguments[0], ctx); return { vals: [v && v.vals.length === 1 && eq(v.vals[0], body) ? D : 'cd'.repeat(32)] } }
      if (ts.isCallExpression(e) && /^JSON\.parse$/.test(e.expression.getText())) return { vals: [header] }
      return undefined
    }
    const reads = n => (ts.isNewExpression(n) && n.expression.getText() === 'DecompressionStream') || (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'decode' && /^TextDecoder$/.test(w.typeName(strip(n.expression).expression)))
    const r = outcome(w, fn, {
      args: [bytes], assume, maxDepth: 7,
      isEvent: reads,
      onEvent(c, st, ctx, I) {
        if (ts.isNewExpression(c)) { if (reads(c)) log.push(c); return undefined }
        if (!reads(c)) return undefined
        const v = c.arguments[0] && I.constEval(c.arguments[0], ctx)
        if (!(v && v.vals.length === 1 && eq(v.vals[0], bytes.slice(10, 12)))) log.push(c)
        return { st, opaque: true, throwSt: null }
      },
    })
    return { ...r, log }
  }
  const B = [201, 202, 203]
  const rows = [
    ['intact, uncompressed', bytesOf(), good, true],
    ['intact, gzip', bytesOf({ algo: 1 }), good, true],
    ['intact, brotli', bytesOf({ algo: 2 }), good, true],
    ...[0, 1, 2, 3].map(i => [`magic byte ${i} differs`, bytesOf({ magic: [0x4e, 0x44, 0x42, 0x31].map((b, j) => j === i ? b + 1 : b) }), good, false]),
    ['shorter than the prefix', bytesOf().slice(0, 7), good, false],
    ['unknown compression', bytesOf({ algo: 3 }), good, false],
    ['header longer than the file', bytesOf({ hl: 200 }), good, false],
    ['header much longer than the file', bytesOf({ hl1: 1 }), good, false],
    ['body shorter than declared', bytesOf(), { ...good, bodyBytes: 4 }, false, true],
    ['body longer than declared', bytesOf(), { ...good, bodyBytes: 2 }, false, true],
    ['empty body declared', bytesOf(), { ...good, bodyBytes: 0 }, false, true],
    ['digest differs at its end', bytesOf(), { ...good, bodySha256: D.slice(0, 63) + 'c' }, false, true],
    ['digest differs at its start', bytesOf(), { ...good, bodySha256: 'c' + D.slice(1) }, false, true],
    ['compressed, digest differs', bytesOf({ algo: 1 }), { ...good, bodySha256: 'c' + D.slice(1) }, false, true],
    ['compressed, length differs', bytesOf({ algo: 2 }), { ...good, bodyBytes: 30 }, false, true],
  ]
  const headers = [
    ['unknown field', { ...good, note: 'x' }], ['vault name', { ...good, vault: 'acme' }], ['exporter', { ...good, exporter: 'ann' }], ['time', { ...good, _exported_at: 't' }], ['user', { ...good, userId: 'ann' }], ['empty unknown field', { ...good, x: undefined }],
    ...['x-origin', 'X-Origin', '$schema', '@context', '', ' handle', 'Handle', 'handle2', 'bodySha', 'bodySha256Full', 'meta.author', 'ext:author', 'constructor', '0'].map(k => [`field named ${JSON.stringify(k)}`, { ...good, [k]: 'x' }]), ['number under an unknown field', { ...good, size: 1 }], ['null under an unknown field', { ...good, note: null }], ['false under an unknown field', { ...good, note: false }],
    ['newer format', { ...good, formatVersion: 2 }], ['format as text', { ...good, formatVersion: '1' }], ['no format', drop(good, 'formatVersion')],
    ['no handle', drop(good, 'handle')], ['short handle', { ...good, handle: ULID.slice(1) }], ['handle outside its alphabet', { ...good, handle: ULID.slice(0, 25) + 'I' }], ['long handle', { ...good, handle: ULID + 'A' }],
    ['no length', drop(good, 'bodyBytes')], ['negative length', { ...good, bodyBytes: -3 }], ['fractional length', { ...good, bodyBytes: 3.5 }], ['length as text', { ...good, bodyBytes: '3' }],
    ['no digest', drop(good, 'bodySha256')], ['upper-case digest', { ...good, bodySha256: D.toUpperCase() }], ['short digest', { ...good, bodySha256: D.slice(2) }],
    ['not an object', 'x'], ['null', null],
  ]
  const refused = r => !r.returns && r.throws.size > 0 && !r.log?.length
  for (const [label, b, h, ok, integrity] of rows) {
    const r = play(fns.readNoydbBundle, b, h, B)
    const good = ok ? r.returns && !!r.log.length : refused(r) && (!integrity || r.throws.has('BundleIntegrityError'))
    rep.ob('read', `readNoydbBundle: ${label}`, good, { node: r.log[0] ?? fns.readNoydbBundle, fn: fns.readNoydbBundle, msg: ok ? 'an intact bundle may be refused' : r.log.length ? 'the body is interpreted although the bundle is not intact' : r.returns ? 'a damaged bundle may be accepted' : `refused with ${[...r.throws].join(', ') || 'no error'}` })
    if (integrity) continue
    const s = play(fns.readNoydbBundleHeader, b, h, B)
    rep.ob('read', `readNoydbBundleHeader: ${label}`, ok ? s.returns : refused(s), { node: fns.readNoydbBundleHeader, fn: fns.readNoydbBundleHeader, msg: ok ? 'an intact bundle may be refused' : 'a damaged bundle may be accepted' })
  }
  for (const n of ['readNoydbBundle', 'readNoydbBundleHeader']) for (const [label, h] of headers) {
    const r = play(fns[n], bytesOf(), h, B)
    rep.ob('header', `${n}: ${label}`, refused(r), { node: fns[n], fn: fns[n], msg: 'a header that is not exactly the documented one may be accepted' })
  }
  // ── writing ──────────────────────────────────────────────────────────
  const isHeader = t => t && !!t.getProperty('bodySha256') && !!t.getProperty('bodyBytes')
  const enc = [...new Set(w.fns)].filter(f => f.body && w.pkgOf(f) === 'hub' && f.parameters[0] && isHeader(w.checker.getTypeAtLocation(f.parameters[0])) && reachesJson(f))
  function reachesJson(f) { let y = false; walkNodes(f.body, n => { if (ts.isCallExpression(n) && /^JSON\.stringify$/.test(n.expression.getText())) y = true }); return y }
  for (const f of enc) for (const [label, h] of [['intact', good], ...headers]) {
    const r = outcome(w, f, { args: [h], maxDepth: 6 })
    rep.ob('header', `${w.fnName(f)}: ${label}`, label === 'intact' ? r.returns : !r.returns && r.throws.size > 0, { node: f, fn: f, msg: label === 'intact' ? 'a correct header may be refused' : 'a header that is not exactly the documented one may be written' })
  }
  const ALLOWED = new Set(['formatVersion', 'handle', 'bodyBytes', 'bodySha256'])
  const texts = [], parts = [], digestArgs = [], heads = []
  recordRun(w, fns.writeNoydbBundle, {
    maxDepth: 5, rel: {},
    isEvent: n => ts.isCallExpression(n) && (/^JSON\.stringify$/.test(n.expression.getText()) || isDigest(n) || (ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'set')),
    onCall(c, st, ctx) {
      if (!ts.isCallExpression(c)) return undefined
      if (/^JSON\.stringify$/.test(c.expression.getText()) && isHeader(w.checker.getTypeAtLocation(c.arguments[0]))) texts.push({ c, ctx })
      if (isDigest(c)) digestArgs.push({ c, ctx })
      return undefined
    },
  })
  if (!texts.length) rep.missing('written', 'serialisation of the bundle header')
  const same = (a, b) => { const k = ls => [...new Set(ls.map(l => `${l.expr.getSourceFile().fileName}:${strip(l.expr).pos}`))].sort().join(); return !!k(a) && k(a) === k(b) }
  const bodyParts = []
  for (const r of w.returnExprs(fns.writeNoydbBundle)) for (const l of origins(w, r, { fn: fns.writeNoydbBundle, parent: null }, { stop: x => ts.isCallExpression(x) })) if (ts.isCallExpression(strip(l.expr))) { const a = strip(strip(l.expr).arguments[0] ?? l.expr); if (ts.isArrayLiteralExpression(a)) bodyParts.push({ expr: a.elements[a.elements.length - 1], ctx: l.ctx }) }
  const O = (e, ctx) => origins(w, e, ctx, { stop: x => ts.isCallExpression(x) })
  for (const { c, ctx } of texts) {
    const ls = origins(w, c.arguments[0], ctx)
    const keys = ls.flatMap(l => { const x = strip(l.expr); return ts.isObjectLiteralExpression(x) ? x.properties.map(p => ts.isSpreadAssignment(p) ? '...' : p.name.getText().replace(/['"]/g, '')) : ['?'] })
    rep.ob('written', 'header fields', keys.length > 0 && keys.every(k => ALLOWED.has(k)) && [...ALLOWED].every(k => keys.includes(k)), { node: c, fn: enclosingFn(c), msg: `the written header has ${[...new Set(keys)].join(', ')}` })
    const len = origins(w, c.arguments[0], ctx, { path: ['bodyBytes'], stop: x => ts.isPropertyAccessExpression(x) && x.name.text === 'length' }).map(l => ({ x: strip(l.expr), ctx: l.ctx })).filter(l => l.x !== strip(c.arguments[0]))
    const sha = origins(w, c.arguments[0], ctx, { path: ['bodySha256'], stop: x => isDigest(x) }).map(l => ({ x: stripAwait(strip(l.expr)), ctx: l.ctx }))
    const body = bodyParts.flatMap(b => O(b.expr, b.ctx))
    rep.ob('written', 'declared length', len.length > 0 && body.length > 0 && len.every(l => ts.isPropertyAccessExpression(l.x) && l.x.name.text === 'length' && same(O(l.x.expression, l.ctx), body)), { node: len[0]?.x ?? c, msg: 'the declared length is not that of the body in the bundle' })
    rep.ob('written', 'digest', sha.length > 0 && body.length > 0 && sha.every(l => isDigest(l.x) && same(O(l.x.arguments[0], l.ctx), body)), { node: sha[0]?.x ?? c, msg: 'the digest is not that of the body in the bundle' })
  }
  // ── restoring ────────────────────────────────────────────────────────
  const restore = fns['Vault.load'], verify = fns['Vault.verifyBackupIntegrity']
  const isVerify = e => ts.isCallExpression(e) && w.resolveCall(e).some(t => t.fn === verify)
  for (const [label, res, head, ok, err] of [
    ['everything agrees', { ok: true, head: 'H', length: 2 }, { hash: 'H' }, true],
    ['a record differs', { ok: false, kind: 'data', collection: 'c', id: 'a', message: 'm' }, { hash: 'H' }, false, 'BackupCorruptedError'],
    ['the chain is broken', { ok: false, kind: 'chain', divergedAt: 1, message: 'm' }, { hash: 'H' }, false, 'BackupLedgerError'],
    ['the head differs', { ok: true, head: 'G', length: 2 }, { hash: 'H' }, false, 'BackupLedgerError'],
    ['the chain was emptied', { ok: true, head: '', length: 0 }, { hash: 'H' }, false, 'BackupLedgerError'],
  ]) {
    const r = outcome(w, restore, {
      maxDepth: 5,
      assume(e) {
        if (isVerify(e)) return { vals: [res] }
        if (ts.isCallExpression(e) && /^JSON\.parse$/.test(e.expression.getText()) && enclosingFn(e) === restore) return { vals: [{ collections: {}, keyrings: {}, ledgerHead: head }] }
        return undefined
      },
      onEvent(c, st) { return ts.isCallExpression(c) && (isVerify(c) || storeOp(w, c)) ? { st, opaque: true, throwSt: null } : undefined },
      isEvent: n => ts.isCallExpression(n) && isVerify(n),
    })
    rep.ob('gate', label, ok ? r.returns && !r.throws.has('BackupCorruptedError') && !r.throws.has('BackupLedgerError') : !r.returns && (!err || r.throws.has(err) || r.throws.has('?')), { node: restore, fn: restore, msg: ok ? 'an intact backup may be refused' : 'the backup may be accepted' })
  }
  {
    let seen = null, late = null, stale = null
    const CACHES = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'clear' && /^Map$/.test(w.typeName(strip(n.expression).expression)) && /Collection</.test(w.checker.typeToString(w.checker.getTypeAtLocation(strip(n.expression).expression)))
    const ledger = n => ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && w.typeName(n.left) === 'LedgerStore' && /^(null|undefined)$/.test(n.right.getText())
    const r = recordRun(w, restore, {
      rel: {}, maxDepth: 5,
      isEvent: n => isVerify(n) || CACHES(n) || ledger(n),
      onAssign(n, st) { return ledger(n) ? addMust(st, 'ledger') : undefined },
      onStore({ c, op, st }) { if (['put', 'delete', 'saveAll'].includes(op)) { if (st.may.has('verified')) late ??= c; return { st: clearFacts(clearFacts(st, 'cleared'), 'ledger'), opaque: true, throwSt: st } } return undefined },
      onCall(c, st, ctx, I) {
        if (CACHES(c)) return { st: addMust(st, 'cleared'), opaque: true, throwSt: null }
        if (!isVerify(c)) return undefined
        seen = c
        if (!st.must.has('ledger')) stale ??= c
        return { st: I.isAwaited(c) ? addMust(st, 'verified') : st, opaque: true, throwSt: st }
      },
    })
    rep.ob('order', 'nothing is written after verification', !!seen && !late, { node: late ?? restore, fn: restore, msg: 'part of the backup is restored after verification' })
    rep.ob('order', 'the ledger is reopened before verification', !!seen && !stale, { node: stale ?? restore, fn: restore, msg: 'verification looks at the ledger as it was before the restore' })
    rep.ob('order', 'opened collections are dropped', !!r.out.normal?.must.has('cleared'), { node: restore, fn: restore, msg: 'collections opened before the restore keep serving what they held' })
  }
  // ── verification of the records ──────────────────────────────────────
  const H = x => `H(${x})`
  const E = (op, c, id, data) => ({ op, collection: c, id, version: 1, payloadHash: H(data), index: 0, prevHash: '', ts: 't', actor: 'u' })
  const log = [E('put', 'c', 'a', 'old'), E('put', 'c', 'b', 'B'), E('put', 'd', 'a', 'D'), E('put', 'c', 'a', 'A'), E('put', 'c', 'x', 'X'), E('delete', 'c', 'x', '')]
  const store = { 'c/a': 'A', 'c/b': 'B', 'd/a': 'D' }
  for (const [label, chainRes, entries, st, want] of [
    ['everything agrees', { ok: true, head: 'H', length: 6 }, log, store, { ok: true, head: 'H', length: 6 }],
    ['the chain is broken', { ok: false, divergedAt: 3, expected: 'e', actual: 'a' }, log, store, { ok: false, kind: 'chain', divergedAt: 3 }],
    ['first record changed', { ok: true, head: 'H', length: 6 }, log, { ...store, 'c/a': 'Z' }, { ok: false, kind: 'data', collection: 'c', id: 'a' }],
    ['record put back to an older state', { ok: true, head: 'H', length: 6 }, log, { ...store, 'c/a': 'old' }, { ok: false, kind: 'data', collection: 'c', id: 'a' }],
    ['middle record changed', { ok: true, head: 'H', length: 6 }, log, { ...store, 'c/b': 'Z' }, { ok: false, kind: 'data', collection: 'c', id: 'b' }],
    ['same id in another collection changed', { ok: true, head: 'H', length: 6 }, log, { ...store, 'd/a': 'Z' }, { ok: false, kind: 'data', collection: 'd', id: 'a' }],
    ['record missing', { ok: true, head: 'H', length: 6 }, log, drop(store, 'c/b'), { ok: false, kind: 'data', collection: 'c', id: 'b' }],
    ['records exchanged', { ok: true, head: 'H', length: 6 }, log, { ...store, 'c/a': 'B', 'c/b': 'A' }, { ok: false, kind: 'data' }],
  ]) {
    const r = outcome(w, verify, {
      maxDepth: 5,
      assume(e, ctx, I) {
        if (ts.isPropertyAccessExpression(e) || ts.isIdentifier(e)) { if (w.typeName(e) === 'LedgerStore') return { vals: [SOME] } }
        if (!ts.isCallExpression(e)) return undefined
        if (w.typeName(e) === 'LedgerStore') return { vals: [SOME] }
        const t = w.checker.typeToString(w.checker.getTypeAtLocation(e))
        if (/VerifyResult/.test(t)) return { vals: [chainRes] }
        if (/LedgerEntry\[\]/.test(t) && /^LedgerStore$/.test(w.typeName(strip(e.expression).expression ?? e))) return { vals: [entries] }
        const one = a => { const v = a && I.constEval(a, ctx); return v?.vals.length === 1 ? v.vals[0] : undefined }
        if (storeOp(w, e) === 'get') { const k = `${one(e.arguments[1])}/${one(e.arguments[2])}`; return { vals: [k in st ? { _noydb: 1, _v: 1, _ts: 't', _iv: 'i', _data: st[k] } : null] } }
        if (isDigest(e)) { const x = one(e.arguments[0]); const s = typeof x === 'string' ? x : x?._data; return { vals: [s === undefined ? '?' : H(s)] } }
        return undefined
      },
      onEvent(c, s) { return ts.isCallExpression(c) && storeOp(w, c) ? { st: s, opaque: true, throwSt: null } : undefined },
    })
    const f = (o, n) => { const v = o instanceof AbsObj ? o.get(n, r.I, 0) : o && { vals: [o[n]] }; return v?.vals.length === 1 ? v.vals[0] : '?' }
    const res = [...r.vals]
    const ok = !r.unknown && res.length > 0 && res.every(o => o && typeof o === 'object' && Object.entries(want).every(([k, v]) => f(o, k) === v))
    rep.ob('verify', label, ok, { node: verify, fn: verify, msg: `expected ${JSON.stringify(want)}, may return ${res.map(o => JSON.stringify(Object.fromEntries(Object.keys(want).map(k => [k, String(f(o, k)).slice(0, 20)])))).join(' or ') || 'nothing known'}` })
  }
  rep.atLeast('read', 15); rep.atLeast('header', 20); rep.atLeast('verify', 6)
  return 'Interprets the bundle readers on concrete prefixes, headers and bodies with one deviation at a time; compares length and digest of the written header with the body by provenance; decides the restore gate for every verification result and the record comparison for concrete ledgers and stores.'
}
const SOME = Symbol('some')
function drop(o, k) { const c = { ...o }; delete c[k]; return c }
