// A01: nothing belonging to a user collection is written or removed without write permission.
import { ts, strip, stripAwait, Interp, origins, assumeProps, storeOp, publicApi, chain, enclosingFn, addMust, mkCtx, K } from '../lib/common.mjs'

// ciphertext replication, whole-vault restore, index maintenance (derived data) and administration are not record writes
const ELSEWHERE = /^(SyncEngine|SyncScheduler|SyncTransaction|PresenceHandle|DictionaryHandle)$/
const ROLES = [
  { role: 'viewer', perms: ['rw', 'ro', undefined] },
  { role: 'client', perms: ['rw', 'ro', undefined] },
  { role: 'operator', perms: ['ro', undefined] },
]
/** Literal text every value of the expression starts with ('' when nothing is known). */
export function knownPrefix(w, I, e, ctx, depth = 0) {
  e = stripAwait(e)
  if (!e || depth > 8) return ''
  const v = I.constEval(e, ctx)
  if (v && v.vals.every(x => typeof x === 'string')) return v.vals.reduce(common)
  if (ts.isTemplateExpression(e)) {
    if (e.head.text) return e.head.text
    return knownPrefix(w, I, e.templateSpans[0].expression, ctx, depth + 1)
  }
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusToken) return knownPrefix(w, I, e.left, ctx, depth + 1)
  if (ts.isCallExpression(e) && !storeOp(w, e)) {
    const outs = []
    for (const t of w.resolveCall(e, ctx)) for (const r of w.returnExprs(t.fn)) outs.push(knownPrefix(w, I, r, mkCtx(t.fn, e, ctx, t.ctx), depth + 1))
    return outs.length ? outs.reduce(common) : ''
  }
  if (ts.isIdentifier(e)) {
    const d = w.declOf(e)
    if (d && ts.isVariableDeclaration(d) && d.initializer && !w.assignmentsOf(w.sym(e)).length) return knownPrefix(w, I, d.initializer, ctx, depth + 1)
    if (d && ts.isParameter(d)) { const a = w.argFor(d, ctx); if (a?.expr) return knownPrefix(w, I, a.expr, a.ctx, depth + 1) }
  }
  if (ts.isPropertyAccessExpression(e)) {
    const d = w.declOf(e.name)
    if (d && ts.isGetAccessorDeclaration(d) && d.body) { const o = w.returnExprs(d).map(r => knownPrefix(w, I, r, mkCtx(d, null, ctx), depth + 1)); return o.length ? o.reduce(common) : '' }
  }
  return ''
}
const common = (a, b) => { let i = 0; while (i < a.length && a[i] === b[i]) i++; return a.slice(0, i) }

export default async function (w, rep) {
  rep.rule('write', 'with a keyring that may not write the collection, no public operation of the core can reach a store write or delete of records, their attachments or their saved versions')
  rep.rule('refuse', 'an operation that always writes for the owner refuses instead of reporting success')
  rep.rule('open', 'the owner does reach the write through the same operation')

  const isWrite = n => ts.isCallExpression(n) && ['put', 'delete', 'saveAll', 'tx'].includes(storeOp(w, n))
  const isEvent = n => isWrite(n) || ts.isThrowStatement(n)
  const classify = (c, op, ctx, I) => {
    if (ELSEWHERE.test(enclosingFn(c)?.parent?.name?.text ?? '')) return null
    if (op === 'saveAll' || op === 'tx') return 'all'
    const coll = knownPrefix(w, I, c.arguments[1], ctx)
    if (knownPrefix(w, I, c.arguments[2], ctx).startsWith('_idx/')) return null // derived index entries
    return /^_blob_(slots|versions)/.test(coll) ? 'attachment' : /^_history/.test(coll) && op === 'delete' ? 'version' : coll.startsWith('_') ? null : 'record'
  }
  let rel = null
  const field = new Map()
  const explore = (fn, r, env) => {
    const hits = [], reached = new Set(), entered = new Set()
    const base = assumeProps([{ types: ['UnlockedKeyring'], prop: 'role', vals: [r.role] }])
    const busy = new Set()
    // a boolean handed to a handle when it was made keeps the value it had then
    const evalX = (e, ctx, I) => {
      e = strip(e)
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.QuestionQuestionToken) {
        const L = evalX(e.left, ctx, I)
        if (L && L.every(x => x !== undefined && x !== null)) return L
        const R = evalX(e.right, ctx, I)
        return L && R ? [...L.filter(x => x !== undefined && x !== null), ...R] : null
      }
      const out = []
      for (const l of origins(w, e, ctx, { callers: true, fields: false, stop: x => ts.isCallExpression(x) })) { const v = l.path.length ? (l.why === 'absent' ? { vals: [undefined] } : null) : I.constEval(l.expr, l.ctx); if (!v) return null; out.push(...v.vals) }
      return out.length ? out : null
    }
    const assume = (e, ctx, I) => {
      if (ts.isElementAccessExpression(e)) {
        const d = I.deref(e.expression, ctx)
        if (d.path[d.path.length - 1] === 'permissions' && (d.path.length > 1 || w.typeName(d.expr) === 'UnlockedKeyring')) return { vals: r.perms }
      }
      const a = base(e, ctx, I)
      if (a) return a
      if (env && isRead(e)) return { vals: [env.v] }
      if (ts.isPropertyAccessExpression(e)) {
        const s = w.sym(e.name), d = s?.valueDeclaration
        if (d && ts.isPropertyDeclaration(d) && !d.initializer && w.checker.typeToString(w.checker.getTypeAtLocation(d)) === 'boolean' && d.modifiers?.some(m => m.kind === K.ReadonlyKeyword)) {
          const k = `${r.role}:${d.pos}:${d.getSourceFile().fileName}`
          if (field.has(k)) return field.get(k)
          if (busy.has(d)) return undefined
          busy.add(d)
          let vals = []
          for (const as of w.assignmentsOf(s)) { const v = evalX(as.value, mkCtx(enclosingFn(as.node)), I); if (!v) { vals = null; break } vals.push(...v) }
          busy.delete(d)
          const res = vals && vals.length ? { vals: [...new Set(vals)] } : undefined
          field.set(k, res)
          return res
        }
      }
      return undefined
    }
    const I = new Interp(w, {
      isEvent, assume,
      onExpr(e, st, ctx) { entered.add(ctx.fn); if (ts.isCallExpression(strip(e))) reached.add(strip(e)) },
      onCall(c, st, ctx, I) {
        if (ts.isCallExpression(c)) reached.add(c)
        const op = storeOp(w, c)
        if (!op || !isWrite(c)) return undefined
        const what = classify(c, op, ctx, I)
        if (!what) return { st, opaque: true }
        hits.push({ c, ctx, op, what })
        return { st: addMust(st, 'wrote'), opaque: true, throwSt: st }
      },
    }, { maxDepth: 8 })
    I.relevant = rel; I._computeRelevant(); rel = I.relevant
    if (!rel.has(fn)) return null
    const out = I.run(fn)
    const prune = n => ts.isCallExpression(n) && entered.has(enclosingFn(n)) && !reached.has(n)
    const live = []
    for (const h of hits) {
      // undoing writes that never happened
      if (h.what !== 'all' && !origins(w, h.c.arguments[2], h.ctx, { prune }).length) continue
      live.push(h)
    }
    return { live, completes: !!(out.normal || out.yields), writes: !!out.normal?.must.has('wrote') }
  }
  function isRead(e) {
    if (ts.isCallExpression(e)) return storeOp(w, e) === 'get' || (ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'get' && w.typeName(e) === 'EncryptedEnvelope')
    if (!ts.isIdentifier(e) || w.typeName(e) !== 'EncryptedEnvelope') return false
    const d = w.declOf(e)
    return !!d && (ts.isParameter(d) || ts.isBindingElement(d))
  }
  const api = publicApi(w)
  let n = 0
  for (const [fn, name] of api.fns) {
    if (w.pkgOf(fn) !== 'hub') continue
    const owner = explore(fn, { role: 'owner', perms: ['rw', 'ro', undefined] })
    if (!owner || !owner.live.length) continue
    // operations whose caller identity is not a keyring: low-level helpers and store wrappers
    if (!usesKeyring(fn) || /^(Vault\.load|Noydb\.rotate|Noydb\.revoke|Collection\.(rebuildIndexes|reconcileIndex)|LazyQuery\..*)$/.test(name)) { rep.count('operations_decided_elsewhere'); continue }
    n++
    rep.ob('open', name, true, { node: fn, fn, note: owner.live.map(h => h.what)[0] })
    for (const r of ROLES) {
      let x = explore(fn, r)
      // nothing was written yet, so what the store holds is what it held: absent, or the same record
      if (x.live.length) { const y = [{ v: null }, { v: { _noydb: 1, _v: 1, _ts: 't', _iv: 'i', _data: 'd' } }].map(v => explore(fn, r, v)); if (y.every(z => !z.live.length)) x = { ...x, live: [] } }
      const bad = x.live[0]
      rep.ob('write', `${name} as ${r.role}`, !bad, { node: bad?.c ?? fn, fn, msg: bad ? `a ${r.role} without write permission reaches ${w.text(bad.c)} (${bad.what})` : '', path: bad ? chain(w, bad.ctx) : [] })
if (!bad && owner.writes) rep.ob('refuse', `${name} as ${r.role}`, !x.completes, { node: fn, fn, msg: `a ${r.role} without write permission is told the operation succeeded` })
    }
  }
  /** The class (or one that creates it) holds a keyring, or a parameter is one. */
  function usesKeyring(fn) {
    const types = []
    const cls = fn.parent && ts.isClassLike(fn.parent) ? fn.parent : null
    if (cls) {
      if (/^(Collection|Vault|Noydb|BlobSet|TxContext|TxCollection|TxVault|LazyQuery|ElevatedHandle)$/.test(cls.name?.text ?? '')) return true
      for (const m of cls.members) if (ts.isPropertyDeclaration(m)) types.push(w.typeName(m))
    }
    for (const p of fn.parameters) types.push(w.typeName(p))
    return types.some(t => /^(UnlockedKeyring|Noydb|Vault)$/.test(t))
  }
  rep.count('operations', n)
  for (const want of ['Collection.put', 'Collection.delete']) if (!rep.has?.('open', want) && !w.findFn(want).length) rep.missing('write', want)
  rep.atLeast('write', 18)
  return 'Every public operation of the core through which an owner can reach a store write or delete of records, attachments or saved versions is interpreted again with role and permission map fixed to those of a viewer, a client and an operator without write permission; no such write may remain reachable.'
}
