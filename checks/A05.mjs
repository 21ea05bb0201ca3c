// A05: records above the caller's clearance stay unreadable and unwritable.
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, Interp, origins, mkCtx, chain, walkNodes, isFnLike, addMust, K } from '../lib/common.mjs'
import { subtle, encodingThrough } from '../lib/crypto.mjs'
import { clock } from '../lib/clock.mjs'
import { knownPrefix } from './A01.mjs'

const NAME = 'c'
const keyOf = t => (t > 0 ? `${NAME}#${t}` : NAME)
export default async function (w, rep) {
  rep.rule('refuse', 'without the key of every tier involved nothing is decrypted, encrypted, generated or stored')
  rep.rule('allow', 'with the keys held the operation does its work')
  rep.rule('key', 'a record stored at a tier is encrypted under that tier\'s own key and marked with that tier')
  rep.rule('hidden', 'a read above clearance yields nothing, or the placeholder when configured')
  rep.rule('report', 'every completed cross-tier access was reported to the access listener')
  rep.rule('expire', 'a released or expired elevation, or an expired delegation, gives no write and no key')
  const api = publicApi(w)
  const byName = n => [...api.fns].filter(([f, nm]) => nm === n && w.pkgOf(f) === 'hub').map(([f]) => f)
  const isPush = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'push'
  const isCrypto = n => ts.isCallExpression(n) && ['encrypt', 'decrypt', 'generateKey'].includes(subtle(w, n))
  const reports = n => ts.isCallExpression(n) && n.arguments.length > 0 && (w.typeName(n.arguments[0]) === 'CrossTierAccessEvent' || ctxType(n) === 'CrossTierAccessEvent')
  function ctxType(n) { const t = w.checker.getContextualType(n.arguments[0]); return t?.aliasSymbol?.name ?? t?.symbol?.name ?? '' }
  const isEvent = n => ts.isThrowStatement(n) || isCrypto(n) || ts.isCallExpression(n) && ['put', 'delete'].includes(storeOp(w, n)) || reports(n)
  const mapCall = (e, ctx, I) => {
    if (!ts.isCallExpression(e)) return null
    const c = strip(e.expression)
    if (!ts.isPropertyAccessExpression(c)) return null
    if (!/^(Readonly)?Map<string, CryptoKey>$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(c.expression)))) return null
    return c.name.text
  }
  let rel = null
  const run = (fn, { role = 'operator', held, args = {}, stored, mode, extra, elevator }) => {
    const ev = [], pushes = []
    const I = new Interp(w, {
      isEvent,
      assume(e, ctx, I) {
        const x = extra?.(e, ctx, I)
        if (x) return x
        if (ts.isPropertyAccessExpression(e)) {
          const o = w.typeName(e.expression)
          if (e.name.text === 'role' && o === 'UnlockedKeyring') return { vals: [role] }
          if (e.name.text === 'name' && /^Collection/.test(o || '') || e.name.text === 'name' && strip(e.expression).kind === K.ThisKeyword && inClass(e, 'Collection')) return { vals: [NAME] }
          if (e.name.text === 'tierMode' && mode) return { vals: [mode] }
          if (e.name.text === '_tier' && /^EncryptedEnvelope$/.test(o)) return { vals: [stored === 0 ? undefined : stored] }
          if (elevator !== undefined && e.name.text === '_elevatedBy') return { vals: [elevator ? 'me' : 'someone'] }
          if (elevator !== undefined && e.name.text === 'userId' && o === 'UnlockedKeyring') return { vals: ['me'] }
        }
        if (ts.isElementAccessExpression(e)) { const d = I.deref(e.expression, ctx); if (d.path[d.path.length - 1] === 'permissions') return { vals: ['rw'] } }
        if (ts.isIdentifier(e)) {
          const d = w.declOf(e)
          if (d && ts.isParameter(d) && d.parent === fn && d.name.getText() in args) return { vals: [args[d.name.getText()]] }
          if (d && ts.isBindingElement(d) && (d.propertyName ?? d.name).getText() === '_tier') return { vals: [stored === 0 ? undefined : stored] }
          if (d && ts.isBindingElement(d) && (d.propertyName ?? d.name).getText() === 'role') return { vals: [role] }
        }
        if (ts.isCallExpression(e)) {
          if (storeOp(w, e) === 'get') return { vals: ['envelope'] }
          const m = mapCall(e, ctx, I)
          if (m === 'has' || m === 'get') {
            const k = I.constEval(e.arguments[0], ctx)
            if (!k || !k.vals.every(v => typeof v === 'string')) return undefined
            const vs = k.vals.map(v => held.has(v))
            return { vals: vs.map(v => m === 'has' ? v : v ? 'key' : undefined) }
          }
        }
        return undefined
      },
      onExpr(e, st, ctx) { const x = strip(e); if (ctx.fn === fn && isPush(x)) pushes.push(x) },
      onCall(c, st, ctx, I) {
        if (ctx.fn === fn && isPush(c)) pushes.push(c)
        if (reports(c)) { ev.push({ kind: 'report', c, ctx }); return { st: addMust(st, 'reported'), opaque: true } }
        if (isCrypto(c)) { ev.push({ kind: subtle(w, c), c, ctx }); return { st: addMust(st, subtle(w, c)), opaque: true, throwSt: st } }
        const op = storeOp(w, c)
        if (op === 'put' || op === 'delete') { if (!knownPrefix(w, I, c.arguments[2], ctx).startsWith('_idx/') && I.constEval(c.arguments[1], ctx)?.vals.every(v => v === NAME)) ev.push({ kind: op, c, ctx }); return { st: addMust(st, 'stored'), opaque: true, throwSt: st } }
        if (op) return { st, opaque: true, throwSt: st }
      },
    }, { maxDepth: 8 })
    I.collectVals = true
    I.relevant = rel; I._computeRelevant(); rel = I.relevant
    const f = I.run(fn)
    return { ev, f, I, pushes }
  }
  function inClass(n, name) { for (let p = n; p; p = p.parent) if (ts.isClassLike(p)) return p.name?.text === name; return false }
  const H = (...ts_) => new Set([NAME, ...ts_.map(keyOf)])
  const tierParam = fn => { const p = fn.parameters.find(p => w.checker.typeToString(w.checker.getTypeAtLocation(p)) === 'number'); return p?.name.getText() }
  const cases = []
  for (const role of ['operator', 'viewer', 'client']) {
    cases.push({ m: 'putAtTier', role, held: H(), to: 2, stored: 0, ok: false }, { m: 'putAtTier', role, held: H(1), to: 2, stored: 0, ok: false }, { m: 'putAtTier', role, held: H(3), to: 2, stored: 0, ok: false })
    cases.push({ m: 'elevate', role, held: H(), to: 2, stored: 0, ok: false }, { m: 'elevate', role, held: H(1), to: 2, stored: 1, ok: false }, { m: 'elevate', role, held: H(2), to: 2, stored: 1, ok: false })
    for (const elevator of [true, false]) cases.push({ m: 'demote', role, held: H(), to: 0, stored: 2, ok: false, elevator }, { m: 'demote', role, held: H(1), to: 1, stored: 2, ok: false, elevator }, { m: 'demote', role, held: H(2), to: 1, stored: 2, ok: false, elevator })
    cases.push({ m: 'demote', role, held: H(1, 2), to: 1, stored: 2, ok: false, elevator: false }, { m: 'demote', role, held: H(2), to: 0, stored: 2, ok: false, elevator: false })
    for (const held of [H(), H(1), H(3)]) cases.push({ m: 'getAtTier', role, held, stored: 2, ok: false })
  }
  for (const stored of [1, 2]) for (const mode of ['invisibility', 'ghost']) cases.push({ m: 'getAtTier', role: 'admin', held: H(), stored, mode, ok: false })
  cases.push({ m: 'putAtTier', role: 'operator', held: H(2), to: 2, stored: 0, ok: true }, { m: 'putAtTier', role: 'owner', held: H(2), to: 2, stored: 1, ok: true }, { m: 'putAtTier', role: 'operator', held: H(), to: 0, stored: 0, ok: true })
  cases.push({ m: 'elevate', role: 'operator', held: H(2), to: 2, stored: 0, ok: true }, { m: 'elevate', role: 'operator', held: H(1, 2), to: 2, stored: 1, ok: true })
  cases.push({ m: 'demote', role: 'operator', held: H(2), to: 0, stored: 2, ok: true, elevator: true }, { m: 'demote', role: 'operator', held: H(1, 2), to: 1, stored: 2, ok: true, elevator: true }, { m: 'demote', role: 'owner', held: H(1, 2), to: 1, stored: 2, ok: true, elevator: false })
  cases.push({ m: 'getAtTier', role: 'operator', held: H(2), stored: 2, ok: true }, { m: 'getAtTier', role: 'owner', held: H(1), stored: 1, ok: true })
  const seen = new Set()
  for (const k of cases) for (const fn of byName(`Collection.${k.m}`)) {
    seen.add(k.m)
    const tp = tierParam(fn)
    const r = run(fn, { ...k, args: tp && k.to !== undefined ? { [tp]: k.to } : {} })
    const label = `${k.m} as ${k.role}${k.elevator === undefined ? '' : k.elevator ? ' (elevated it)' : ' (did not elevate it)'}: ${k.to !== undefined ? `to tier ${k.to}, ` : ''}stored at ${k.stored}, holding ${[...k.held].join('+')}${k.mode ? ', ' + k.mode : ''}`
    const work = r.ev.filter(e => e.kind !== 'report')
    if (!k.ok) {
      rep.ob('refuse', label, !work.length, { node: work[0]?.c ?? fn, fn, msg: work.length ? `reaches ${w.text(work[0].c, 60)} without holding the key of every tier involved` : '', path: work[0] ? chain(w, work[0].ctx) : [] })
      if (k.m !== 'getAtTier') rep.ob('refuse', `${label}: told`, !r.f.normal, { node: fn, fn, msg: 'the refused operation reports success' })
      continue
    }
    const done = k.m === 'getAtTier' ? r.ev.some(e => e.kind === 'decrypt') : r.ev.some(e => e.kind === 'put')
    rep.ob('allow', label, done, { node: fn, fn, msg: 'an authorised caller does not get through' })
    if (k.to !== 0 || k.m !== 'putAtTier') rep.ob('report', label, !!r.f.normal && r.f.normal.must.has('reported'), { node: fn, fn, msg: 'the access can complete without being reported' })
    for (const e of r.ev) if (e.kind === 'report') {
      const op = field(r.I, e.c.arguments[0], e.ctx, 'op'), want = k.m.replace('AtTier', '')
      if (op) rep.ob('report', `${label}: kind`, op.vals.length === 1 && op.vals[0] === want, { node: e.c, fn, msg: `reported as ${op.vals.join('/')}` })
    }
    for (const e of r.ev) if (e.kind === 'put') {
      const t = field(r.I, e.c.arguments[3], e.ctx, '_tier')
      rep.ob('key', `${label}: mark`, !!t && t.vals.length === 1 && (t.vals[0] ?? 0) === k.to, { node: e.c, fn, msg: `the stored record is marked ${t ? t.vals.join('/') : 'with an unknown tier'} instead of ${k.to}` })
      let n = 0
      for (const l of origins(w, e.c.arguments[3], e.ctx, { path: ['_data'], stop: x => subtle(w, x) === 'encrypt', through: encodingThrough(w) })) {
        const x = strip(l.expr)
        if (subtle(w, x) !== 'encrypt') { if (l.path.includes('_data')) continue; rep.ob('key', `${label}: body`, false, { node: x, fn, msg: `stored body comes from ${w.text(x, 50)}` }); continue }
        for (const q of origins(w, x.arguments[1], l.ctx, { stop: isLookup })) {
          const y = strip(q.expr)
          n++
          const nm = isLookup(y) ? r.I.constEval(y.arguments[0], q.ctx) : null
          rep.ob('key', `${label}: key`, !!nm && nm.vals.length === 1 && nm.vals[0] === keyOf(k.to), { node: y, fn, msg: `encrypted under ${nm ? nm.vals.join('/') : w.text(y, 40)} instead of the key of tier ${k.to}` })
        }
      }
      if (!n) rep.ob('key', `${label}: key`, false, { node: e.c, fn, msg: 'no key found' })
    }
  }
  function isLookup(e) { return ts.isCallExpression(e) && e.arguments.length >= 1 && /CryptoKey/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e))) && !subtle(w, e) && /^(string|"[^"]*")$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0]))) }
  /** Value of a property of an object literal, looking through spreads of conditional objects. */
  function field(I, e, ctx, name) {
    const d = I.deref(e, ctx)
    const x = strip(d.expr)
    if (d.path.length) return null
    if (ts.isObjectLiteralExpression(x)) {
      for (let i = x.properties.length - 1; i >= 0; i--) {
        const p = x.properties[i]
        if (ts.isSpreadAssignment(p)) { const v = field(I, p.expression, d.ctx, name); if (v === null) return null; if (v !== undefined && !(v.vals.length === 1 && v.vals[0] === undefined && v.absent)) return v; continue }
        if ((p.name?.text ?? p.name?.getText()) === name) return I.constEval(ts.isPropertyAssignment(p) ? p.initializer : p.name, d.ctx) ?? null
      }
      return { vals: [undefined], absent: true }
    }
    if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.AmpersandAmpersandToken) {
      const c = I.constEval(x.left, d.ctx)
      if (!c) { const v = field(I, x.right, d.ctx, name); return v?.absent ? v : null }
      return c.vals.every(v => !v) ? { vals: [undefined], absent: true } : c.vals.every(Boolean) ? field(I, x.right, d.ctx, name) : null
    }
    if (ts.isConditionalExpression(x)) { const c = I.constEval(x.condition, d.ctx); if (!c) return null; return c.vals.every(Boolean) ? field(I, x.whenTrue, d.ctx, name) : c.vals.every(v => !v) ? field(I, x.whenFalse, d.ctx, name) : null }
    if (ts.isCallExpression(x)) { const t = w.resolveCall(x, d.ctx); if (t.length === 1) { const rs = w.returnExprs(t[0].fn); if (rs.length === 1) return field(I, rs[0], mkCtx(t[0].fn, x, d.ctx, t[0].ctx), name) } }
    return null
  }
  for (const m of ['putAtTier', 'getAtTier', 'elevate', 'demote']) if (!seen.has(m)) rep.missing('refuse', `Collection.${m}`)
  // what an uncleared reader sees
  for (const fn of byName('Collection.getAtTier')) for (const role of ['operator', 'admin']) {
    const a = run(fn, { role, held: H(), stored: 2, mode: 'invisibility' })
    rep.ob('hidden', `getAtTier as ${role}: invisibility`, !a.f.valUnknown && a.f.vals.every(v => v === null || v === undefined), { node: fn, fn, msg: 'a record above clearance is not reported as absent' })
    const g = run(fn, { role, held: H(), stored: 2, mode: 'ghost' })
    rep.ob('hidden', `getAtTier as ${role}: ghost`, !!g.f.normal && !(g.f.vals.length && !g.f.valUnknown && g.f.vals.every(v => v === null)), { node: fn, fn, msg: 'no placeholder is returned in ghost mode' })
  }
  for (const fn of byName('Collection.listAtTier')) {
    const a = run(fn, { held: H(), stored: 2, mode: 'invisibility' })
    rep.ob('hidden', 'listAtTier: invisibility', !a.pushes.length, { node: fn, fn, msg: 'ids above clearance are listed in invisibility mode' })
    const b = run(fn, { held: H(2), stored: 2, mode: 'invisibility' })
    rep.ob('hidden', 'listAtTier: cleared', b.pushes.length > 0, { node: fn, fn, msg: 'ids within clearance are not listed' })
  }
  // the report reaches the listener
  for (const f of w.fns) {
    if (w.pkgOf(f) !== 'hub' || !f.parameters.some(p => w.typeName(p) === 'CrossTierAccessEvent')) continue
    let calls = 0
    walkNodes(f, n => { if (ts.isCallExpression(n) && reports(n)) calls++ })
    rep.ob('report', `forwarded by ${w.fnName(f)}`, calls > 0, { node: f, fn: f, msg: 'the report is dropped' })
  }
  // elevation handles
  const T = 1_800_000_000_000
  for (const cls of w.findClass('ElevatedHandle', 'packages/hub/')) {
    const roots = []
    walkNodes(cls, n => { if (isFnLike(n) && n.body && !ts.isConstructorDeclaration(n)) roots.push(n) })
    let n = 0
    for (const f of roots) {
      const states = [
        ['released', { released: true, exp: T + 3_600_000 }, false],
        ['expired', { released: false, exp: T - 3_600_000 }, false],
        ['just expired', { released: false, exp: T - 50 }, false],
        ['active', { released: false, exp: T + 3_600_000 }, true],
        ['active for another moment', { released: false, exp: T + 50 }, true],
      ]
      const go = s => {
        const c = clock(w, { now: T, instant: e => ts.isPropertyAccessExpression(e) && e.name.text === 'expiresAt' && inClass(e, 'ElevatedHandle') ? s.exp : undefined })
        return run(f, { held: H(1, 2, 3), stored: 0, role: 'owner', extra: (e, ctx, I) => ts.isPropertyAccessExpression(e) && e.name.text === 'released' && inClass(e, 'ElevatedHandle') ? { vals: [s.released] } : c(e, ctx, I) })
      }
      const any = go({ released: false, exp: T + 3_600_000 })
      if (!any.f.normal?.must.has('stored')) continue
      n++
      for (const [nm, s, ok] of states) {
        const r = go(s)
        rep.ob('expire', `elevated ${w.fnName(f).replace(/.*>/, '')} ${nm}`, ok ? !!r.f.normal : !r.f.normal && !r.ev.length, { node: f, fn: f, msg: ok ? 'an elevation still running is refused' : 'the elevated write goes through' })
      }
    }
    if (!n) rep.missing('expire', 'a writing operation of the elevation handle')
  }
  // the handle's own limit
  for (const fn of byName('Vault.elevate')) {
    const I = new Interp(w, { isEvent: () => false, assume: clock(w, { now: T, instant: e => undefined }) })
    let n = 0
    walkNodes(fn, x => {
      if (!ts.isNewExpression(x) || w.typeName(x) !== 'ElevatedHandle' || !x.arguments?.[0]) return
      const v = limitOf(x.arguments[0])
      if (!v) return
      n++
      const e = v
      let hit = false, plus = false
      const go = (y, d = 0) => { if (!y || d > 6) return; walkNodes(y, z => { if (ts.isPropertyAccessExpression(z) && z.name.text === 'ttlMs' || ts.isIdentifier(z) && z.text === 'ttlMs') hit = true; if (ts.isIdentifier(z)) { const dd = w.declOf(z); if (dd && ts.isVariableDeclaration(dd) && dd.initializer) go(dd.initializer, d + 1) } if (ts.isBinaryExpression(z) && z.operatorToken.kind === K.PlusToken) plus = true }) }
      go(e)
      const val = new Interp(w, { isEvent: () => false, assume: (y, c, II) => (ts.isPropertyAccessExpression(y) && y.name.text === 'ttlMs') || (ts.isIdentifier(y) && y.text === 'ttlMs') ? { vals: [60_000] } : clock(w, { now: T })(y, c, II) }).constEval(e, mkCtx(fn))
      rep.ob('expire', 'elevation limit', val ? val.vals.length === 1 && val.vals[0] === T + 60_000 : hit && plus, { node: x, fn, msg: 'the limit of the elevation is not start plus the requested duration' })
    })
    void I
    if (!n) rep.missing('expire', 'the limit handed to the elevation handle')
  }
  function limitOf(arg) { const o = strip(arg); if (ts.isObjectLiteralExpression(o)) for (const p of o.properties) if (p.name?.getText() === 'expiresAt') return ts.isPropertyAssignment(p) ? p.initializer : p.name; return null }
  // delegations
  for (const fn of byName('loadActiveDelegations')) for (const [nm, t, ok] of [['expired', T - 3_600_000, false], ['just expired', T - 50, false], ['live', T + 3_600_000, true]]) {
    const c = clock(w, { now: T, instant: e => ts.isPropertyAccessExpression(e) && e.name.text === 'until' ? t : ts.isIdentifier(e) && bindsTo(e, 'until') ? t : undefined })
    const hits = []
    const I = new Interp(w, {
      isEvent: n => ts.isThrowStatement(n) || ts.isCallExpression(n) && (mapCall(n) === 'set' || subtle(w, n) === 'unwrapKey'),
      assume: c,
      onCall(x, st, ctx) { if (mapCall(x) === 'set' || subtle(w, x) === 'unwrapKey') { hits.push(x); return { st, opaque: true, throwSt: st } } },
    }, { maxDepth: 6 })
    I.run(fn)
    rep.ob('expire', `delegation ${nm}`, ok ? hits.length > 0 : !hits.length, { node: hits[0] ?? fn, fn, msg: ok ? 'a live delegation gives no key' : 'an expired delegation still yields its key' })
  }
  function bindsTo(e, name) { const d = w.declOf(e); return !!d && ts.isBindingElement(d) && (d.propertyName ?? d.name).getText() === name }
  rep.atLeast('refuse', 30); rep.atLeast('allow', 8); rep.atLeast('key', 8); rep.atLeast('hidden', 5); rep.atLeast('report', 8); rep.atLeast('expire', 8)
  return 'Every tier operation is interpreted for a table of caller role × held keys × stored tier × requested tier × visibility mode, evaluating which key names are looked up: refused combinations must reach no cryptographic or storage operation, allowed ones must encrypt under exactly the key of the target tier and report the access. Elevations and delegations are interpreted on both sides of their limit with a fixed clock.'
}
