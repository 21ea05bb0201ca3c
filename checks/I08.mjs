// I08: the ledger records every change once, linked, and is never rewritten.
import { ts, strip, origins, storeOp, publicApi, enclosingFn, addMust, clearFacts, chain, walkNodes, thrownClass } from '../lib/common.mjs'
import { subtle, encodingThrough } from '../lib/crypto.mjs'
import { AbsObj } from '../lib/interp.mjs'
import { outcome } from '../lib/decide.mjs'
import { recordOps, directOps, recordRun, allOn, undoing, viaJudged } from '../lib/records.mjs'

const with_ = (st, k) => addMust(st, k)
const may = (st, k) => ({ must: st.must, may: new Set([...st.may, k]) })
const rename = (st, from, to) => st.may.has(from) ? { must: new Set([...st.must].filter(k => k !== from)), may: new Set([...[...st.may].filter(k => k !== from), to]) } : st

export default async function (w, rep) {
  rep.rule('entry', 'an operation that wrote a record returns only after its ledger entry was written')
  rep.rule('once', 'no path writes a second ledger entry for the same operation')
  rep.rule('says', 'the entry names the operation, the record and the digest of what was stored')
  rep.rule('through', 'every other operation writes records only through an operation decided above')
  rep.rule('link', 'a new entry takes the next index and the hash of the last entry, at a key that sorts in order')
  rep.rule('hash', 'the hash of an entry covers the whole entry')
  rep.rule('head', 'a remembered head pairs an entry with the hash of that same entry')
  rep.rule('create', 'entries are only written as create-if-absent and never deleted')
  rep.rule('verify', 'verification accepts an intact chain and reports the first entry that diverges')

  const rel = {}
  const typeText = e => w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)))
  const base = allOn(w, { present: ['LedgerStore'], flags: { 'Collection.encrypted': [true], 'LedgerStore.encrypted': [true] } })
  const enc = encodingThrough(w)
  const through = (e, c) => subtle(w, e) === 'encrypt' ? [e.arguments[2]] : whole(w, e) ?? enc(e, c) ?? textBytes(e) ?? (isJson(e) ? [e.arguments[0]] : null)
  const entryOf = (c, ctx) => origins(w, c.arguments[3], ctx, { path: ['_data'], through, stop: e => w.typeName(e) === 'LedgerEntry' || (ts.isObjectLiteralExpression(e) && e.properties.some(p => p.name?.getText() === 'prevHash')) })
  const direct = directOps(w)
  const judged = new Set(direct.map(o => o.fn))

  const isConflict = e => ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.InstanceOfKeyword && strip(e.right).getText() === 'ConflictError'
  const entryRun = (fn, onLedger, onRecord) => recordRun(w, fn, {
    rel, assume: base, isEvent: n => isConflict(n),
    ...undoing,
    onCall(c, st, ctx, I, targets) { return targets?.some(t => judged.has(t.fn)) && ctx.fn ? { st, opaque: true, throwSt: st } : undefined },
    onRaise: (c, st) => rename(st, 'entry', 'entry!'),
    onThrow: (s, st) => { const c = thrownClass(w, s); return c && c !== 'ConflictError' ? rename(st, 'entry', 'entry!') : st },
    onAtom: (e, pol, st) => isConflict(e) ? (pol ? clearFacts(st, 'entry!') : rename(st, 'entry!', 'entry')) : st,
    onStore({ c, op, kind, st, ctx, I }) {
      if (op !== 'put' && op !== 'delete') return undefined
      const cas = c.arguments.length > (op === 'put' ? 4 : 3)
      if (kind === 'record' && !st.must.has('failed')) {
        onRecord?.(c, ctx, op, st)
        return { st: st.must.has('paid') ? clearFacts(st, 'paid') : with_(st, 'owed'), opaque: true, throwSt: cas ? st : rename(st, 'entry', 'entry!') }
      }
      if (kind === 'ledger' && op === 'put') {
        onLedger?.(c, ctx, st, I)
        const next = with_(st.may.has('owed') ? clearFacts(st, 'owed') : with_(st, 'paid'), 'entry')
        return { st: next, opaque: true, throwSt: may(st, 'entry!') }
      }
      return { st, opaque: true, throwSt: cas ? st : rename(st, 'entry', 'entry!') }
    },
  })
  for (const o of direct) {
    const twice = [], seen = [], wrote = []
    const r = entryRun(o.fn, (c, ctx, st, I) => { if (st.may.has('entry') || st.may.has('entry!')) twice.push({ c, ctx }); if (st.may.has('owed') || !wrote.length) seen.push({ c, ctx, I }) }, (c, ctx, op) => wrote.push({ c, ctx, op }))
    const owed = r.out.normal?.may.has('owed')
    rep.ob('entry', o.name, !owed && (!r.out.normal || seen.length > 0), { node: wrote[0]?.c ?? o.fn, fn: o.fn, msg: 'may return with the record written and no ledger entry appended' })
    if (seen.length) rep.ob('once', o.name, !twice.length, { node: twice[0]?.c ?? o.fn, fn: o.fn, msg: 'an entry may already have been written for this operation when another one is', path: twice[0] ? chain(w, twice[0].ctx) : [] })
    const want = /\.delete$/.test(o.name) ? 'delete' : 'put'
    const stopC = e => subtle(w, e) === 'encrypt' || subtle(w, e) === 'digest' || !!storeOp(w, e)
    for (const { c, ctx, I } of seen) {
      const bad = []
      const at = p => entryOf(c, ctx).flatMap(l => origins(w, l.expr, l.ctx, { path: [p], stop: e => stopC(e) || (p === 'collection' && isName(w, e)), through: (e, c2) => hexish(w, e, c2) }).filter(x => x.why !== 'absent'))
      const op = at('op').map(l => constText(l.expr))
      if (!op.length || op.some(v => v !== want)) bad.push(`operation ${op.join('/') || 'unknown'}`)
      const id = at('id')
      if (!id.length || id.some(l => !isParamOf(w, l, o.fn, 'id'))) bad.push(`record ${id.map(l => w.text(l.expr)).join('/') || 'unknown'}`)
      const coll = at('collection')
      if (!coll.length || coll.some(l => !isName(w, strip(l.expr)))) bad.push(`collection ${coll.map(l => w.text(l.expr)).join('/') || 'unknown'}`)
      const hash = at('payloadHash').filter(l => constText(l.expr) !== '')
      const covered = hash.flatMap(l => subtle(w, strip(l.expr)) === 'digest' ? origins(w, strip(l.expr).arguments[1], l.ctx, { stop: stopC, through: (e, c2) => enc(e, c2) ?? textBytes(e) ?? bytesOf(w, e) }) : [{ expr: null }])
      const stored = wrote.flatMap(x => want === 'put' ? origins(w, x.c.arguments[3], x.ctx, { path: ['_data'], stop: stopC, through: (e, c2) => enc(e, c2) ?? bytesOf(w, e) }) : [])
      const nodes = new Set(stored.map(sig))
      const okHash = covered.length > 0 && covered.every(l => l.expr && (want === 'put' ? nodes.has(sig(l)) : storeOp(w, strip(l.expr)) === 'get'))
      if (!okHash) bad.push(`digest of ${covered.map(l => l.expr ? w.text(l.expr) : 'nothing').join('/') || 'nothing'}`)
      rep.ob('says', `${o.name}: ${want}`, !bad.length, { node: c, fn: o.fn, msg: `the entry carries ${bad.join(', ')}`, path: chain(w, ctx) })
    }
  }
  for (const n of ['Collection.put', 'Collection.delete']) if (!direct.some(o => o.name === n)) rep.missing('entry', n)
  for (const o of recordOps(w)) {
    if (judged.has(o.fn)) continue
    for (const h of viaJudged(w, o, judged, { rel, assume: base })) rep.ob('through', `${o.name} -> ${w.fnName(enclosingFn(h.c))}`, h.via, { node: h.c, fn: o.fn, msg: 'a record is written without passing an operation that appends to the ledger', path: chain(w, h.ctx) })
  }
  // ── appending ────────────────────────────────────────────────────────
  const E = (i, prev, more = {}) => ({ index: i, prevHash: prev, op: 'put', collection: 'c', id: 'r', version: 1, ts: 't', actor: 'u', payloadHash: 'p', ...more })
  const H = e => `H${JSON.stringify(e)}`
  const hashers = new Set()
  const isEntryArg = a => w.typeName(a) === 'LedgerEntry' || /(^|[^\[])LedgerEntry$/.test(typeText(a))
  const known = (list, head) => (e, ctx, I) => {
    if (ts.isCallExpression(e)) {
      if (/^Promise<LedgerEntry\[\]>$/.test(typeText(e))) return { vals: [list] }
      if (/^Promise<string>$/.test(typeText(e)) && e.arguments.length === 1 && isEntryArg(e.arguments[0])) {
        for (const t of w.resolveCall(e, ctx)) hashers.add(t.fn)
        const v = I.constEval(e.arguments[0], ctx)
        if (v?.vals.length === 1 && v.vals[0] && !(v.vals[0] instanceof AbsObj)) return { vals: [H(v.vals[0])] }
        return undefined
      }
    }
    if (ts.isPropertyAccessExpression(e) && isHead(w, e) && !(ts.isBinaryExpression(e.parent) && e.parent.left === e && e.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken)) return { vals: [head] }
    return base(e, ctx, I)
  }
  const ledgerCls = [...publicApi(w).classes].find(([, n]) => n === 'LedgerStore')?.[0]
  const appenders = [...publicApi(w).fns].filter(([fn]) => fn.parent === ledgerCls && ledgerCls && recordRun(w, fn, { rel, assume: base }).hits.some(h => h.op === 'put' && h.kind === 'ledger'))
  if (!appenders.length) rep.missing('link', 'a public operation that appends to the ledger')
  for (const [fn, name] of appenders) {
    const e7 = E(7, 'P7'), e0 = E(0, '')
    const rows = [
      ['empty ledger', known([], undefined), '0', ''],
      ['one entry', known([e0], undefined), '1', H(e0)],
      ['eight entries', known([e0, ...[1, 2, 3, 4, 5, 6].map(i => E(i, `P${i}`)), e7], undefined), '8', H(e7)],
      ['remembered head', known([e7], { entry: e7, hash: 'HEAD' }), '8', 'HEAD'],
      ['ten entries', known([e0, E(9, 'P9')], { entry: E(9, 'P9'), hash: 'H9' }), '10', 'H9'],
    ]
    const keys = []
    for (const [label, assume, idx, prev] of rows) {
      const got = []
      recordRun(w, fn, { rel, vals: true, assume, onStore({ c, op, kind, st, ctx, I }) {
        if (op === 'put' && kind === 'ledger') {
          I.curSt = st
          const id = I.constEval(c.arguments[2], ctx)
          const es = entryOf(c, ctx).flatMap(l => I.constEval(l.expr, l.ctx)?.vals ?? [ts.isObjectLiteralExpression(strip(l.expr)) ? new AbsObj(strip(l.expr), l.ctx) : null])
          const f = n => { const vs = es.map(x => x instanceof AbsObj ? x.get(n, I, 0) : x && { vals: [x[n]] }); return vs.length && vs.every(v => v && v.vals.length === 1 && v.vals[0] === vs[0].vals[0]) ? vs[0].vals[0] : '?' }
          got.push({ c, id: id?.vals.length === 1 ? id.vals[0] : '?', index: f('index'), prev: f('prevHash') })
        }
        return undefined
      } })
      const bad = got.find(g => String(g.index) !== idx || Number(g.id) !== Number(idx) || g.prev !== prev)
      if (got[0]) keys.push([Number(idx), got[0].id])
      rep.ob('link', `${name}: ${label}`, got.length > 0 && !bad, { node: bad?.c ?? fn, fn, msg: got.length ? `writes index ${bad?.index} at key ${JSON.stringify(bad?.id)} with previous hash ${JSON.stringify(bad?.prev)}` : 'no entry is written' })
    }
    keys.sort((a, b) => a[0] - b[0])
    rep.ob('link', `${name}: key order`, keys.every((k, i) => i === 0 || keys[i - 1][0] === k[0] || String(keys[i - 1][1]) < String(k[1])), { node: fn, fn, msg: 'keys do not sort in the order of their indexes' })
  }
  // ── the hash and the remembered head ─────────────────────────────────
  for (const sf of w.sourceFiles) {
    if (w.pkgOf(sf) !== 'hub') continue
    walkNodes(sf, n => {
      if (ts.isObjectLiteralExpression(n)) {
        const p = k => n.properties.find(x => x.name?.getText() === k)
        const en = p('entry'), h = p('hash')
        if (!en || !h) return
        const ee = ts.isShorthandPropertyAssignment(en) ? en.name : en.initializer, he = ts.isShorthandPropertyAssignment(h) ? h.name : h.initializer
        if (!ee || !he || !isEntryArg(ee)) return
        const want = new Set(origins(w, ee, null, { stop: e => isEntryArg(e) && ts.isCallExpression(e) || ts.isElementAccessExpression(e) }).map(l => strip(l.expr)))
        const bad = []
        for (const l of origins(w, he, null, { stop: e => subtle(w, e) === 'digest' || (ts.isCallExpression(e) && e.arguments.length === 1 && isEntryArg(e.arguments[0])) || ts.isPropertyAccessExpression(e) && e.name.text === 'hash' && isHead(w, e.expression) })) {
          const x = strip(l.expr)
          if (ts.isCallExpression(x) && x.arguments.length === 1 && isEntryArg(x.arguments[0])) {
            const from = origins(w, x.arguments[0], l.ctx, { stop: e => isEntryArg(e) && ts.isCallExpression(e) || ts.isElementAccessExpression(e) }).map(y => strip(y.expr))
            if (!from.length || from.some(y => !want.has(y))) bad.push(x)
          } else if (!(ts.isPropertyAccessExpression(x) && x.name.text === 'hash')) bad.push(x)
        }
        rep.ob('head', w.fnName(enclosingFn(n)) , !bad.length, { node: bad[0] ?? n, fn: enclosingFn(n), msg: 'the hash kept beside an entry is not the hash of that entry' })
      }
      if (ts.isCallExpression(n)) {
        const op = storeOp(w, n)
        if (op !== 'put' && op !== 'delete') return
        const names = origins(w, n.arguments[1], null).map(l => constText(l.expr))
        if (!names.includes('_ledger')) return
        const v = op === 'put' && n.arguments[4] ? origins(w, n.arguments[4], null).map(l => strip(l.expr).getText()) : []
        rep.ob('create', `${w.fnName(enclosingFn(n))}: ${op}`, op === 'put' && v.length > 0 && v.every(x => x === '0'), { node: n, fn: enclosingFn(n), msg: op === 'delete' ? 'a ledger entry is deleted' : 'a ledger entry may overwrite an existing one' })
      }
    })
  }
  // ── verification ─────────────────────────────────────────────────────
  const chainOf = n => { const es = []; for (let i = 0; i < n; i++) es.push(E(i, i ? H(es[i - 1]) : '')); return es }
  const alter = (n, i, f) => chainOf(n).map((e, j) => j === i ? f(e) : e)
  const checkers = [...publicApi(w).fns].filter(([fn]) => fn.parent === ledgerCls && ledgerCls && /VerifyResult/.test(w.checker.typeToString(w.checker.getReturnTypeOfSignature(w.checker.getSignatureFromDeclaration(fn)))))
  if (!checkers.length) rep.missing('verify', 'a public operation that verifies the ledger')
  const three = chainOf(3)
  const rows = [
    ['intact chain', three, { ok: true, length: 3, head: H(three[2]) }],
    ['empty chain', [], { ok: true, length: 0 }],
    ['one entry', chainOf(1), { ok: true, length: 1, head: H(chainOf(1)[0]) }],
    ['first entry changed', alter(3, 0, e => ({ ...e, payloadHash: 'q' })), { ok: false, divergedAt: 1 }],
    ['middle entry changed', alter(3, 1, e => ({ ...e, payloadHash: 'q' })), { ok: false, divergedAt: 2 }],
    ['first entry claims a predecessor', alter(3, 0, e => ({ ...e, prevHash: 'x' })), { ok: false, divergedAt: 0 }],
    ['link of the last entry changed', alter(3, 2, e => ({ ...e, prevHash: 'x' })), { ok: false, divergedAt: 2 }],
    ['link of the last entry emptied', alter(3, 2, e => ({ ...e, prevHash: '' })), { ok: false, divergedAt: 2 }],
    ['first entry removed', chainOf(3).slice(1), { ok: false, divergedAt: 0 }],
    ['middle entry removed', [three[0], three[2]], { ok: false, divergedAt: 1 }],
    ['two entries exchanged', [three[0], three[2], three[1]], { ok: false, divergedAt: 1 }],
    ['index of the last entry changed', alter(3, 2, e => ({ ...e, index: 5 })), { ok: false, divergedAt: 2 }],
    ['index of the first entry changed', alter(1, 0, e => ({ ...e, index: 1 })), { ok: false, divergedAt: 0 }],
  ]
  for (const [fn, name] of checkers) for (const [label, list, want] of rows) {
    const r = outcome(w, fn, { assume: known(list, undefined), maxDepth: 6 })
    const f = (o, n) => { const v = o instanceof AbsObj ? o.get(n, r.I, 0) : o && { vals: [o[n]] }; return v?.vals.length === 1 ? v.vals[0] : '?' }
    const res = [...r.vals]
    const ok = !r.unknown && res.length > 0 && res.every(o => o && typeof o === 'object' && Object.entries(want).every(([k, v]) => f(o, k) === v))
    rep.ob('verify', `${name}: ${label}`, ok, { node: fn, fn, msg: `expected ${JSON.stringify(want).slice(0, 80)}, may return ${res.map(o => JSON.stringify(Object.fromEntries(Object.keys(want).map(k => [k, String(f(o, k)).slice(0, 20)])))).join(' or ') || 'nothing known'}` })
  }
  for (const fn of hashers) {
    const dg = []
    const p = fn.parameters[0]
    for (const l of returnsOf(w, fn)) for (const q of origins(w, l, { fn, parent: null }, { stop: e => subtle(w, e) === 'digest', through: (e, c) => hexish(w, e, c) })) if (constText(q.expr) === null) dg.push(q)
    const src = dg.flatMap(q => subtle(w, strip(q.expr)) === 'digest' ? origins(w, strip(q.expr).arguments[1], q.ctx, { through: (e, c) => whole(w, e) ?? enc(e, c) ?? textBytes(e) }) : [{ expr: q.expr }])
    rep.ob('hash', w.fnName(fn), src.length > 0 && src.every(l => l.expr && w.declOf(strip(l.expr)) === p && !l.path?.length), { node: fn, fn, msg: `the hash is computed over ${src.map(l => w.text(l.expr)).join(', ') || 'nothing'}` })
  }
  rep.count('operations', direct.length)
  rep.atLeast('entry', 2); rep.atLeast('once', 2); rep.atLeast('says', 2); rep.atLeast('link', 4); rep.atLeast('hash', 1); rep.atLeast('create', 1); rep.atLeast('verify', 8); rep.atLeast('through', 3)
  rep.assumptions.push('restoring a backup replaces the ledger as a whole and is decided under I12')
  return 'Each record operation is interpreted with the ledger present: the store write leaves an entry owed, the entry write settles it, and a retry may only follow a refused create-if-absent write. Appending and verifying are evaluated on small concrete chains.'
}
const isJson = e => ts.isCallExpression(e) && /^JSON\.stringify$/.test(strip(e.expression).getText())
const sig = l => { let k = `${l.expr.pos}:${l.expr.getSourceFile().fileName}`; for (let c = l.ctx; c; c = c.parent) if (c.call) k += `<${c.call.pos}`; return k }
const constText = e => { e = e && strip(e); return e && (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) ? e.text : null }
function hexish(w, e, c) { return ts.isCallExpression(e) && subtle(w, e) !== 'digest' && !w.resolveCall(e, c).length && !storeOp(w, e) ? [...(ts.isPropertyAccessExpression(strip(e.expression)) ? [strip(e.expression).expression] : []), ...e.arguments] : ts.isNewExpression(e) ? [...(e.arguments ?? [])] : null }
const textBytes = e => ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'encode' && e.arguments.length === 1 ? [e.arguments[0]] : null
function bytesOf(w, e) { return ts.isNewExpression(e) ? [...(e.arguments ?? [])].slice(0, 1) : null }
function whole(w, e) { return ts.isCallExpression(e) && e.arguments.length === 1 && w.checker.typeToString(w.checker.getTypeAtLocation(e)) === 'string' && /LedgerEntry/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0]))) ? [e.arguments[0]] : null }
function isHead(w, e) { const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)); const p = n => t.getProperty?.(n); const en = p('entry'); return !!en && !!p('hash') && /LedgerEntry/.test(w.checker.typeToString(w.checker.getTypeOfSymbol(en))) }
const isName = (w, e) => ts.isPropertyAccessExpression(e) && w.memberName(e) === 'Collection.name'
function isParamOf(w, l, fn, name) { const d = l.expr && ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null; return !!d && ts.isParameter(d) && d.parent === fn && fn.parameters.indexOf(d) === 0 }
function returnsOf(w, fn) { const out = []; if (fn.body && !ts.isBlock(fn.body)) return [fn.body]; walkNodes(fn.body, n => { if (ts.isReturnStatement(n) && n.expression && enclosingFn(n) === fn) out.push(n.expression) }); return out }
