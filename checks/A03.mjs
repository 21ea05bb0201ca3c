// A03: granting, revoking and administering stay within the caller's authority.
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, Interp, origins, mkCtx, chain, walkNodes, walkOwn, usedFn, K } from '../lib/common.mjs'
import { outcome } from '../lib/decide.mjs'
import { knownPrefix } from './A01.mjs'
import { subtle } from '../lib/crypto.mjs'

const ROLES = ['owner', 'admin', 'operator', 'viewer', 'client']
const RANK = { client: 1, viewer: 2, operator: 3, admin: 4, owner: 5 }
const admin = r => r === 'owner' || r === 'admin'

export default async function (w, rep) {
  rep.rule('grant', 'a grant is stored exactly for the documented caller and target roles')
  rep.rule('revoke', 'a key file is removed or keys rotated by revocation exactly for the documented caller and target roles, never for an owner')
  rep.rule('rotate', 'only an owner or admin can rotate keys')
  rep.rule('credentials', 'stored sync credentials are read, listed, written and deleted only by an owner or admin')
  rep.rule('dictionary', 'shared dictionaries are written only by the configured role or above (admin by default)')
  rep.rule('held', 'every key wrapped for somebody else was taken from the caller\'s own keys')
  rep.rule('reserved', 'the collections the library keeps for itself (key files, credentials, ledger, …) cannot be opened as ordinary collections, which would bypass their own authority checks')
  const api = publicApi(w)
  const byName = n => [...api.fns].filter(([f, nm]) => nm === n && w.pkgOf(f) === 'hub').map(([f]) => f)
  const touches = new Set(['put', 'delete', 'saveAll', 'tx'])
  const isTouch = n => ts.isCallExpression(n) && touches.has(storeOp(w, n))
  const isAccess = n => ts.isCallExpression(n) && !!storeOp(w, n)
  const yieldsKeyring = c => ts.isCallExpression(c) && /^(Promise<)?UnlockedKeyring>?$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(c)))
  const rels = new Map()
  const run = (fn, { caller, target, extra, isEvent, tag, skipOwn }) => {
    const table = (e, prop, type) => {
      // `x.role` or `const { role } = x`
      if (ts.isPropertyAccessExpression(e) && e.name.text === prop) return type.test(w.typeName(e.expression))
      if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) && (d.propertyName ?? d.name).text === prop) { const t = w.checker.getTypeAtLocation(d.parent); return type.test(t.aliasSymbol?.name ?? t.symbol?.name ?? '') } }
      return false
    }
    if (!rels.has(tag)) rels.set(tag, {})
    return outcome(w, fn, {
      rel: rels.get(tag), isEvent, maxDepth: 8,
      assume(e, ctx, I) {
        if (table(e, 'role', /^UnlockedKeyring$/)) return { vals: [caller] }
        if (target && table(e, 'role', /^(GrantOptions|KeyringFile)$/)) return { vals: [target] }
        return extra?.(e, ctx, I)
      },
      onEvent(c, st, ctx, I, ev) {
        if (yieldsKeyring(c)) return { st, opaque: true, throwSt: st }
        if (ts.isCallExpression(c) && isEvent(c)) { if (skipOwn && I.constEval(c.arguments[1], ctx)?.vals.every(v => v === '_keyring')) return { st, opaque: true, throwSt: st }; ev.push({ c, ctx, op: storeOp(w, c) }); return { st, opaque: true, throwSt: st } }
      },
    })
  }
  const judge = (rule, name, fn, label, want, o) => {
    const hit = o.events.length > 0
    const ev = o.events[0]
    let msg = ''
    if (want && !hit) msg = `${label}: documented as allowed, but nothing is stored`
    if (!want && hit) msg = `${label}: documented as refused, but reaches ${w.text(ev.c, 70)}`
    if (!want && !hit && o.returns) msg = `${label}: refused callers are told the operation succeeded`
    rep.ob(rule, `${name} ${label}`, !msg, { node: ev && !want ? ev.c : fn, fn, msg, path: ev && !want ? chain(w, ev.ctx) : [] })
  }
  for (const fn of byName('Noydb.grant')) for (const caller of ROLES) for (const target of ROLES)
    judge('grant', 'Noydb.grant', fn, `${caller} grants ${target}`, caller === 'owner' || (caller === 'admin' && target !== 'owner'), run(fn, { caller, target, isEvent: isTouch, tag: 'w' }))
  for (const fn of byName('Noydb.revoke')) for (const caller of ROLES) for (const target of ROLES)
    judge('revoke', 'Noydb.revoke', fn, `${caller} revokes ${target}`, target !== 'owner' && admin(caller), run(fn, { caller, target, isEvent: isTouch, tag: 'w' }))
  for (const fn of byName('Noydb.rotate')) for (const caller of ROLES)
    judge('rotate', 'Noydb.rotate', fn, `as ${caller}`, admin(caller), run(fn, { caller, isEvent: isTouch, tag: 'w' }))
  // stored credentials: every public function of the module that works on that collection
  const credFns = [...api.fns].filter(([f, n]) => w.pkgOf(f) === 'hub' && /Credential/.test(n) && f.parameters.some(p => w.typeName(p) === 'UnlockedKeyring') && f.parameters.some(p => w.typeName(p) === 'NoydbStore'))
  for (const [fn, n] of credFns) for (const caller of ROLES)
    judge('credentials', n, fn, `as ${caller}`, admin(caller), run(fn, { caller, isEvent: isAccess, tag: 'a' }))
  // dictionaries
  const dict = w.findClass('DictionaryHandle', 'packages/hub/')
  for (const cls of dict) for (const m of w.publicMethods(cls)) {
    const owner = run(m, { caller: 'owner', isEvent: isTouch, tag: 'w', skipOwn: true })
    if (!owner.events.length || m.name.getText().startsWith('_')) continue
    for (const by of [undefined, 'operator', 'admin', 'owner']) for (const caller of ROLES) {
      const o = run(m, { caller, isEvent: isTouch, tag: 'w', skipOwn: true, extra: e => ts.isPropertyAccessExpression(e) && e.name.text === 'writableBy' ? { vals: [by] } : undefined })
      judge('dictionary', `DictionaryHandle.${m.name.getText()}`, m, `as ${caller}, writable by ${by ?? 'default'}`, RANK[caller] >= RANK[by ?? 'admin'], o)
    }
  }
  // names of the library's own collections: everything the core itself stores under a reserved name
  const own = new Map()
  const I0 = new Interp(w, {}, {})
  for (const f of w.fns) if (w.pkgOf(f) === 'hub' && usedFn(w, api, f)) walkOwn(f, n => {
    if (!ts.isCallExpression(n) || !['put', 'delete'].includes(storeOp(w, n))) return
    const exact = I0.constEval(n.arguments[1], mkCtx(f))
    const names = exact ? exact.vals : [knownPrefix(w, I0, n.arguments[1], mkCtx(f)) + 'x']
    for (const nm of names) if (typeof nm === 'string' && /^_[a-z]/.test(nm)) { if (!own.has(nm)) own.set(nm, n) }
  })
  for (const fn of byName('Vault.collection')) for (const [nm, at] of own) {
    const o = outcome(w, fn, { args: [nm], maxDepth: 6 })
    rep.ob('reserved', `Vault.collection('${nm}')`, !o.returns, { node: fn, fn, msg: `hands out a general collection over ${nm}, which the library writes at ${w.loc(at)}` })
  }
  rep.atLeast('reserved', 8)
  // provenance of wrapped keys
  const giveFns = w.fns.filter(f => w.pkgOf(f) === 'hub' && f.parameters.some(p => w.typeName(p) === 'UnlockedKeyring') && f.parameters.some(p => /^(GrantOptions|BundleRecipient|IssueDelegationOptions|IssueMagicLinkGrantOptions|WriteMagicLinkGrantOptions|MagicLinkGrantOptions)$/.test(w.typeName(p)) || /GrantOptions|DelegationOptions|Recipient/.test(w.typeName(p))))
  for (const fn of giveFns) {
    let n = 0
    const bad = []
    const I = new Interp(w, {
      isEvent: x => ts.isCallExpression(x) && subtle(w, x) === 'wrapKey',
      onCall(c, st, ctx) {
        if (!ts.isCallExpression(c) || subtle(w, c) !== 'wrapKey') return undefined
        n++
        const isGet = e => ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'get'
        for (const l of origins(w, c.arguments[1], ctx, { callers: false, stop: isGet })) {
          const e = strip(l.expr)
          const host = isGet(e) ? strip(e.expression).expression : e
          if (fromDeks(host, l.ctx, l.path)) continue
          if (l.why === 'undefined') continue
          bad.push(`${w.text(e, 60)} at ${w.loc(e)}`)
        }
        return undefined
      },
    }, { maxDepth: 6 })
    I.run(fn)
    if (!n) continue
    rep.ob('held', w.fnName(fn), bad.length === 0, { node: fn, fn, msg: bad.length ? `wraps a key that is not one of the caller's own: ${[...new Set(bad)].join('; ')}` : '' })
  }
  function fromDeks(e, ctx, path = []) {
    if (path.includes('deks')) return true
    e = strip(e)
    for (let k = 0; k < 8 && e; k++) {
      if (ts.isPropertyAccessExpression(e)) { if (e.name.text === 'deks') return w.typeName(e.expression) === 'UnlockedKeyring'; e = strip(e.expression); continue }
      if (ts.isCallExpression(e)) { e = strip(e.expression); continue }
      if (ts.isIdentifier(e)) {
        const d = w.declOf(e)
        if (d && ts.isVariableDeclaration(d) && d.initializer) { e = stripAwait(d.initializer); continue }
        if (d && ts.isParameter(d)) { const a = w.argFor(d, ctx); if (a?.expr) { e = stripAwait(a.expr); ctx = a.ctx; continue } }
        if (d && (ts.isBindingElement(d) || ts.isVariableDeclaration(d))) {
          let p = d; while (p && !ts.isForOfStatement(p) && !isFn(p)) p = p.parent
          if (p && ts.isForOfStatement(p)) { e = strip(p.expression); continue }
        }
      }
      return false
    }
    return false
  }
  rep.atLeast('grant', 25); rep.atLeast('revoke', 25); rep.atLeast('rotate', 5)
  rep.atLeast('credentials', 15); rep.atLeast('dictionary', 40); rep.atLeast('held', 3)
  return 'Every administrative operation is interpreted once per caller role (× target role, × configured dictionary role) and the set of reachable store accesses compared with the documented hierarchy; keys wrapped for others are traced back to the caller\'s key map.'
}
const isFn = n => ts.isFunctionDeclaration(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n)
