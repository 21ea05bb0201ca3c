// I06: a closed accounting period cannot be changed.
import { ts, strip, origins, storeOp, publicApi, enclosingFn, addMust, chain } from '../lib/common.mjs'
import { subtle, encodingThrough } from '../lib/crypto.mjs'
import { recordOps, recordRun, allOn, undoing, SOME } from '../lib/records.mjs'

const IN = '2026-02-10', LAST = '2026-03-31', NOON = '2026-03-31T12:00:00.000Z', OUT = '2026-04-05'
const P = o => ({ name: 'Q1', kind: 'closed', endDate: LAST, closedAt: '2026-04-01', closedBy: 'u', priorPeriodHash: '', ...o })
const D = P({ dateField: 'date' }), T = P({})

export default async function (w, rep) {
  rep.rule('sealed', 'an operation on a record dated in a closed period, before or after the change, reaches no store write')
  rep.rule('open', 'an operation outside every closed period does reach the store')
  rep.rule('through', 'every other operation writes records only through an operation decided above')
  rep.rule('recorded', 'closing returns only after the period and its ledger entry were written')
  rep.rule('once', 'a period name already taken is refused before any store write')
  rep.rule('chain', 'each period record carries the digest of the whole previous one')
  rep.rule('only', 'no other operation writes or deletes period records')

  const ops = recordOps(w)
  const rel = {}
  const DIRECT = /^Collection\.(put|delete|putAtTier|elevate|demote)$/
  const direct = ops.filter(o => o.cls === 'Collection' && o.writes.some(h => enclosingFn(h.c) === o.fn || h.ctx?.fn === o.fn || helperOf(w, h.ctx, o.fn)) && DIRECT.test(o.name))
  const typeText = e => w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)))
  const base = allOn(w, { present: ['LedgerStore'], flags: { 'Collection.encrypted': [true] } })
  const ofRecord = ctx => { for (let c = ctx; c; c = c.parent) if (c.fn?.parent && ts.isClassLike(c.fn.parent)) return c.fn.parent.name?.text === 'Collection'; return false }
  const run = (o, { periods, env, old, rec, out, readable = true }) => {
    const content = o.fn.parameters.find(p => /^(T|unknown)$/.test(p.type?.getText() ?? ''))
    const r = recordRun(w, o.fn, {
      rel, vals: true,
      isEvent: n => subtle(w, n) === 'decrypt',
      onCatch: (n, st) => (readable ? false : undoing.onCatch(n, st)),
      onCall(c, st) { if (subtle(w, c) === 'decrypt') return readable ? undefined : { st: null, opaque: true, throwSt: st }; return undefined },
      assumeProp: (src, n, ctx) => out !== undefined && n === 'value' && isResult(w, src) ? { vals: [out] } : undefined,
      assume(e, ctx, I) {
        if (ts.isCallExpression(e)) {
          if (storeOp(w, e) === 'get' && ofRecord(ctx)) return { vals: [env] }
          if (/^JSON\.parse$/.test(strip(e.expression).getText()) && ofRecord(ctx)) return { vals: [old] }
          if (ofRecord(ctx) && /^Promise<(T|unknown|Record<string, unknown>)>$/.test(typeText(e)) && e.arguments.some(a => w.typeName(a) === 'EncryptedEnvelope')) return { vals: [old] }
          if (/^Promise<(readonly )?PeriodRecord\[\]>$/.test(typeText(e))) return { vals: [periods] }
        }
        if (ts.isPropertyAccessExpression(e)) {
          if (/^(readonly )?PeriodRecord\[\]$/.test(typeText(e))) return { vals: [periods] }
          if (e.name.text === 'issues' && isResult(w, e.expression)) return { vals: [undefined] }
          if (e.name.text === 'value' && isResult(w, e.expression) && out !== undefined) return { vals: [out] }
        }
        if (content && ts.isIdentifier(e) && w.declOf(e) === content && (out === undefined || I._reaching(content, ctx)?.has('init'))) return { vals: [rec] }
        if (/^StandardSchemaV1</.test(typeText(e)) && !ts.isCallExpression(e)) return { vals: [out !== undefined ? SOME : undefined] }
        return base(e, ctx, I)
      },
    })
    return r.hits.filter(h => (h.op === 'put' || h.op === 'delete') && !/^(keyring|consent_audit)$/.test(h.kind) && !(h.st.must.has('failed') && readable))
  }
  for (const o of direct) {
    const tier = /demote/.test(o.name) ? 1 : 0
    const env = ts_ => ({ _noydb: 1, _v: 3, _ts: ts_, _iv: 'x', _data: 'y', _tier: tier, _by: 'u' })
    const takes = o.fn.parameters.some(p => /^(T|unknown)$/.test(p.type?.getText() ?? ''))
    const rows = [
      ['stored date in the period', { periods: [D], env: env(OUT), old: { date: IN }, rec: { date: OUT } }, true],
      ['stored date on the last day', { periods: [D], env: env(OUT), old: { date: LAST }, rec: { date: OUT } }, true],
      ['stored date and time on the last day', { periods: [D], env: env(OUT), old: { date: NOON }, rec: { date: OUT } }, true],
      ['second closed period', { periods: [P({ name: 'Q0', endDate: '2025-12-31', dateField: 'paid' }), D], env: env(OUT), old: { date: IN }, rec: { date: OUT } }, true],
      ['closed period after an opened one', { periods: [P({ name: 'Q2', kind: 'opened', endDate: LAST }), D], env: env(OUT), old: { date: IN }, rec: { date: OUT } }, true],
      ['write time in the period', { periods: [T], env: env(`${IN}T08:00:00.000Z`), old: { date: OUT }, rec: { date: OUT } }, true],
      ['write time on the last day', { periods: [T], env: env(NOON), old: { date: OUT }, rec: { date: OUT } }, true],
      ['after the period', { periods: [D], env: env(OUT), old: { date: OUT }, rec: { date: OUT } }, false],
      ['write time after the period', { periods: [T], env: env(OUT), old: { date: IN }, rec: { date: IN } }, false],
      ['no period', { periods: [], env: env(IN), old: { date: IN }, rec: { date: IN } }, false],
      ['an opened period', { periods: [P({ kind: 'opened', dateField: 'date' })], env: env(IN), old: { date: IN }, rec: { date: IN } }, false],
      ['stored date in the period, record unreadable', { periods: [D], env: env(OUT), old: null, rec: { date: OUT }, readable: false }, true],
    ]
    if (takes) rows.push(
      ['new date in the period', { periods: [D], env: env(OUT), old: { date: OUT }, rec: { date: IN } }, true],
      ['new record in the period', { periods: [D], env: null, old: null, rec: { date: IN } }, true],
      ['new record on the last day', { periods: [D], env: null, old: null, rec: { date: NOON } }, true],
      ['new record after the period', { periods: [D], env: null, old: null, rec: { date: OUT } }, false],
      ['date moved into the period by the validator', { periods: [D], env: null, old: null, rec: { date: OUT }, out: { date: IN } }, true],
      ['date kept after the period by the validator', { periods: [D], env: null, old: null, rec: { date: OUT }, out: { date: OUT } }, false],
    )
    for (const [label, k, refuse] of rows) {
      const hs = run(o, k)
      if (refuse) rep.ob('sealed', `${o.name}: ${label}`, !hs.length, { node: hs[0]?.c ?? o.fn, fn: o.fn, msg: hs[0] ? `${w.text(hs[0].c)} is reachable` : '', path: hs[0] ? chain(w, hs[0].ctx) : [] })
      else rep.ob('open', `${o.name}: ${label}`, hs.some(h => h.kind === 'record'), { node: o.fn, fn: o.fn, msg: 'the operation never reaches the store' })
    }
  }
  for (const n of ['Collection.put', 'Collection.delete']) if (!direct.some(o => o.name === n)) rep.missing('sealed', n)
  const judged = new Set(direct.map(o => o.fn))
  for (const o of ops) {
    if (judged.has(o.fn)) continue
    for (const h of recordRun(w, o.fn, { rel, ...undoing, assume: base }).hits) {
      if (h.kind !== 'record' || (h.op !== 'put' && h.op !== 'delete') || h.st.must.has('failed')) continue
      let via = false
      for (let c = h.ctx; c; c = c.parent) if (judged.has(c.fn)) via = true
      rep.ob('through', `${o.name} -> ${w.fnName(enclosingFn(h.c))}`, via, { node: h.c, fn: o.fn, msg: 'a record is written without passing the period guard', path: chain(w, h.ctx) })
    }
  }
  // ── closing ──────────────────────────────────────────────────────────
  const cls = [...publicApi(w).classes].find(([, n]) => n === 'Vault')?.[0]
  const enc = encodingThrough(w)
  const closers = []
  for (const [fn, name] of publicApi(w).fns) {
    if (w.pkgOf(fn) !== 'hub' || fn.parent !== cls) continue
    const hs = recordRun(w, fn, { rel, assume: base }).hits.filter(h => h.kind === 'periods' && (h.op === 'put' || h.op === 'delete') && ![...frames(h.ctx)].some(f => f !== fn && closersOf(w).has(f)))
    if (!hs.length) continue
    const makes = closersOf(w).has(fn)
    rep.ob('only', name, makes && hs.every(h => h.op === 'put'), { node: hs[0].c, fn, msg: `${w.text(hs[0].c)}: period records are only added by closing or opening one` })
    if (makes) closers.push({ fn, name, put: hs.find(h => h.op === 'put') })
  }
  // the list of periods kept in memory must know the new one (or be dropped, to be read again) once closing returns
  const isList = e => /^(readonly )?PeriodRecord\[\]( \| (null|undefined))*$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e)))
  const isListWrite = n => ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(strip(n.left)) && isListDecl(strip(n.left))
  const isListDecl = e => { const d = w.declOf(e); return !!d && !!d.type && /PeriodRecord(\[\]|>)/.test(d.type.getText()) }
  const isGrow = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && ['push', 'unshift', 'splice'].includes(strip(n.expression).name.text) && isList(strip(n.expression).expression)
  const without = (st, f) => ({ must: new Set([...st.must].filter(x => x !== f)), may: st.may })
  const memRel = {}
  const inMemory = {
    onStore: ({ op, kind, st }) => op === 'put' ? { st: addMust(st, `did:${kind}`), opaque: true, throwSt: st } : undefined,
    onCall(c, st, ctx) {
      if (!isGrow(c)) return undefined
      st = addMust(st, 'grown')
      const own = origins(w, strip(c.expression).expression, ctx, {}).some(l => ts.isArrayLiteralExpression(strip(l.expr)) && enclosingFn(l.expr) === enclosingFn(c))
      return { st: own ? st : addMust(st, 'mem'), opaque: true, throwSt: null }
    },
    onAssign(n, st, ctx) {
      if (!isListWrite(n)) return st
      const after = st.must.has('did:periods')
      const ok = origins(w, n.right, ctx, { stop: e => ts.isArrayLiteralExpression(e) || ts.isCallExpression(e) && !w.resolveCall(e, ctx).length }).every(l => {
        const e = strip(l.expr)
        if (e.kind === ts.SyntaxKind.NullKeyword || ts.isIdentifier(e) && e.text === 'undefined') return after
        if (st.must.has('grown')) return true
        if (ts.isArrayLiteralExpression(e)) return e.elements.some(x => !ts.isSpreadElement(x))
        if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && ['concat', 'toSpliced', 'with'].includes(strip(e.expression).name.text)) return e.arguments.length > 0
        return after && ts.isCallExpression(e)
      })
      return ok ? addMust(st, 'mem') : without(st, 'mem')
    },
  }
  for (const { fn, name, put } of closers) {
    const r = recordRun(w, fn, { rel, assume: base, onStore: ({ op, kind, st }) => op === 'put' ? { st: addMust(st, `did:${kind}`), opaque: true, throwSt: st } : undefined })
    for (const k of ['periods', 'ledger']) rep.ob('recorded', `${name}: ${k === 'periods' ? 'period' : 'ledger entry'}`, !!r.out.normal?.must.has(`did:${k}`), { node: fn, fn, msg: `may return without the ${k === 'periods' ? 'period record' : 'ledger entry'} having been written` })
    const mem = recordRun(w, fn, { rel: memRel, assume: base, isEvent: n => isListWrite(n) || isGrow(n), ...inMemory })
    rep.ob('recorded', `${name}: list in memory`, !!mem.out.normal?.must.has('mem'), { node: fn, fn, msg: 'may return while the list the guard consults still lacks the period' })
    const taken = recordRun(w, fn, { rel, vals: true, assume: (e, ctx, I) => {
      if ((ts.isCallExpression(e) ? /^Promise</.test(typeText(e)) : ts.isPropertyAccessExpression(e) || ts.isIdentifier(e)) && /^(Promise<)?(readonly )?PeriodRecord\[\]>?$/.test(typeText(e))) return { vals: [[{ ...T }]] }
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'name' && /PeriodOptions/.test(w.typeName(e.expression))) return { vals: ['Q1'] }
      return base(e, ctx, I)
    }, assumeProp: (src, n) => n === 'name' && /PeriodOptions/.test(w.typeName(src)) ? { vals: ['Q1'] } : undefined }).hits.filter(h => (h.op === 'put' || h.op === 'delete') && h.kind !== 'consent_audit')
    rep.ob('once', name, !taken.length, { node: taken[0]?.c ?? fn, fn, msg: taken[0] ? `${w.text(taken[0].c)} is reachable for a period that exists` : '' })
    const stop = e => storeOp(w, e) || (subtle(w, e) === 'digest')
    let ok = false, why = 'the stored record has no digest of its predecessor'
    for (const l of origins(w, put.c.arguments[3], put.ctx, { path: ['_data'], through: (e, c) => subtle(w, e) === 'encrypt' ? [e.arguments[2]] : enc(e, c) ?? (isJson(e) ? [e.arguments[0]] : null), stop })) {
      for (const q of origins(w, l.expr, l.ctx, { path: ['priorPeriodHash'], stop, through: (e, c) => hexish(w, e, c) })) {
        const dg = strip(q.expr)
        if (subtle(w, dg) !== 'digest') continue
        const src = origins(w, dg.arguments[1], q.ctx, { through: (e, c) => enc(e, c) ?? whole(w, e) ?? textBytes(e), stop: e => /^(readonly )?PeriodRecord\[\]$/.test(typeText(e)) || w.typeName(e) === 'PeriodRecord' })
        ok = src.length > 0 && src.every(x => w.typeName(x.expr) === 'PeriodRecord' || /PeriodRecord\[\]/.test(typeText(x.expr)))
        why = `the digest covers ${src.map(x => w.text(x.expr)).join(', ')}`
      }
    }
    rep.ob('chain', name, ok, { node: put.c, fn, msg: why })
  }
  if (!closers.length) rep.missing('recorded', 'an operation that closes a period')
  rep.count('operations', direct.length)
  rep.atLeast('sealed', 20); rep.atLeast('open', 10); rep.atLeast('through', 3); rep.atLeast('recorded', 2); rep.atLeast('once', 1); rep.atLeast('chain', 1); rep.atLeast('only', 1)
  return 'Each record operation is interpreted with a closed period and a stored and a new record whose dates are inside, at the edge of or outside it: inside, no store write may be reachable; outside, the write must be. Operations that close a period are interpreted for what they write before returning.'
}
const isJson = e => ts.isCallExpression(e) && /^JSON\.stringify$/.test(strip(e.expression).getText())
function hexish(w, e, c) { return ts.isCallExpression(e) && subtle(w, e) !== 'digest' && !w.resolveCall(e, c).length ? [...(ts.isPropertyAccessExpression(strip(e.expression)) ? [strip(e.expression).expression] : []), ...e.arguments] : ts.isNewExpression(e) ? [...(e.arguments ?? [])] : null }
const textBytes = e => ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'encode' && e.arguments.length === 1 ? [e.arguments[0]] : null
/** Serialisers of a whole value: functions from one value to text. */
function whole(w, e) { return ts.isCallExpression(e) && e.arguments.length === 1 && w.checker.typeToString(w.checker.getTypeAtLocation(e)) === 'string' ? [e.arguments[0]] : null }
function* frames(ctx) { for (let c = ctx; c; c = c.parent) if (c.fn) yield c.fn }
function helperOf(w, ctx, fn) { for (let c = ctx; c; c = c.parent) if (c.fn === fn) return true; return false }
function closersOf(w) {
  if (w._closers) return w._closers
  const s = new Set()
  for (const [fn] of publicApi(w).fns) if (fn.parameters.some(p => /PeriodOptions/.test(p.type?.getText() ?? ''))) s.add(fn)
  return (w._closers = s)
}
function isResult(w, e) { return /StandardSchemaV1SyncResult|StandardSchemaV1Issue/.test(w.checker.typeToString(w.checker.getTypeAtLocation(strip(e)), undefined, ts.TypeFormatFlags.NoTruncation)) }
