// A02: the role matrix, as a decision table over every role and shape of permission map.
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, Interp, addMust, origins, mkCtx, K } from '../lib/common.mjs'
import { outcome } from '../lib/decide.mjs'
import { subtle } from '../lib/crypto.mjs'

const ROLES = ['owner', 'admin', 'operator', 'viewer', 'client']
const PERMS = [{}, { c: 'ro' }, { c: 'rw' }, { other: 'rw' }]
const canWrite = (role, p) => role === 'owner' || role === 'admin' || (role === 'operator' && p.c === 'rw')
const canRead = (role, p) => role === 'owner' || role === 'admin' || role === 'viewer' || 'c' in p
const LISTS = [undefined, [], ['json'], ['csv'], ['*'], ['json', 'csv']]
const BUNDLES = [undefined, true, false]
const exp = (role, cap, tier, fmt) => tier === 'plaintext' ? !!cap?.plaintext && (cap.plaintext.includes('*') || cap.plaintext.includes(fmt)) : cap?.bundle ?? (role === 'owner' || role === 'admin')
const imp = (role, cap, tier, fmt) => tier === 'plaintext' ? !!cap?.plaintext && (cap.plaintext.includes('*') || cap.plaintext.includes(fmt)) : cap?.bundle === true
const CAPS = [undefined]
for (const plaintext of LISTS) for (const bundle of BUNDLES) CAPS.push({ ...(plaintext ? { plaintext } : {}), ...(bundle === undefined ? {} : { bundle }) })
const show = o => JSON.stringify(o) ?? 'none'

export default async function (w, rep) {
  rep.rule('capability', 'every export and import decision has exactly the documented value for each role, capability, tier and format')
  rep.rule('gate', 'the vault gate throws exactly when the documented decision is no')
  rep.rule('access', 'whether a collection is readable or writable has exactly the documented value for each role and permission map')
  rep.rule('keys', 'a key handed to an operator or client belongs to a collection their permission map names, or to internal bookkeeping')
  rep.rule('permitted', 'callers the matrix allows to write do reach the store')
  const api = publicApi(w)
  const byName = n => [...api.fns].filter(([f, nm]) => nm === n && w.pkgOf(f) === 'hub').map(([f]) => f)
  const kr = (role, permissions, exportCapability, importCapability) => ({ role, permissions, userId: 'u', displayName: 'u', exportCapability, importCapability })
  const rel = {}
  const judge = (rule, name, fn, cases, want, run) => {
    let bad = null, n = 0
    for (const c of cases) {
      n++
      const o = run(c)
      const exp = want(c)
      const got = o.unknown || !o.vals.length ? '?' : o.vals.map(Boolean)
      if (got === '?' || got.some(v => v !== exp)) { bad ??= { c, exp, got } }
    }
    rep.count('decisions', n)
    rep.ob(rule, name, !bad, { node: fn, fn, msg: bad ? `for ${Object.entries(bad.c).map(([k, v]) => `${k}=${show(v)}`).join(', ')} the decision is ${bad.got === '?' ? 'not determined by these inputs alone' : bad.got.join('|')}, documented: ${bad.exp}` : '', note: `${n} combinations` })
  }
  const combos = []
  for (const role of ROLES) for (const cap of CAPS) for (const [tier, format] of [['plaintext', 'json'], ['plaintext', 'xlsx'], ['bundle', undefined]]) for (const other of [undefined, { plaintext: ['*'], bundle: true }]) combos.push({ role, cap, tier, format, other })
  const table = { Export: exp, Import: imp }
  for (const dir of ['Export', 'Import']) {
    const want = c => table[dir](c.role, c.cap, c.tier, c.format)
    const mk = c => kr(c.role, {}, dir === 'Export' ? c.cap : c.other, dir === 'Import' ? c.cap : c.other)
    for (const fn of byName(`has${dir}Capability`)) judge('capability', `has${dir}Capability`, fn, combos, want, c => outcome(w, fn, { args: [mk(c), c.tier, c.format], rel }))
    for (const fn of byName(`evaluate${dir}Capability`)) judge('capability', `evaluate${dir}Capability`, fn, combos, want, c => outcome(w, fn, { args: [c.cap, c.role, c.tier, c.format], rel }))
    for (const fn of byName(`Vault.can${dir}`)) judge('gate', `Vault.can${dir}`, fn, combos, want, c => outcome(w, fn, { args: [c.tier, c.format], types: { UnlockedKeyring: mk(c) }, rel }))
    for (const fn of byName(`Vault.assertCan${dir}`)) judge('gate', `Vault.assertCan${dir}`, fn, combos, want, c => {
      const o = outcome(w, fn, { args: [c.tier, c.format], types: { UnlockedKeyring: mk(c) }, rel })
      return { vals: [...(o.returns ? [true] : []), ...(o.throws.size ? [false] : [])], unknown: false }
    })
  }
  // read and write decisions on one collection
  const acc = []
  for (const role of ROLES) for (const permissions of PERMS) acc.push({ role, permissions })
  for (const [n, want] of [['hasWritePermission', canWrite], ['hasAccess', canRead]]) for (const fn of w.findFn(n, 'packages/hub/')) {
    judge('access', n, fn, acc, c => want(c.role, c.permissions), c => outcome(w, fn, { args: [kr(c.role, c.permissions), 'c'], rel }))
  }
  const relW = {}
  const writes = n => ts.isCallExpression(n) && ['put', 'delete'].includes(storeOp(w, n))
  const onCollection = e => ts.isPropertyAccessExpression(e) && e.name.text === 'name' && w.typeName(e.expression) === 'Collection' ? { vals: ['c'] } : undefined
  for (const m of ['Collection.put', 'Collection.delete']) for (const fn of byName(m)) {
    judge('permitted', m, fn, acc, c => canWrite(c.role, c.permissions), c => {
      const o = outcome(w, fn, { types: { UnlockedKeyring: kr(c.role, c.permissions) }, assume: onCollection,
        isEvent: writes, rel: relW, onEvent(cc, st, ctx, I, ev) { if (ts.isCallExpression(cc) && writes(cc)) { ev.push(cc); return { st, opaque: true } } } })
      return { vals: [o.events.length > 0], unknown: false }
    })
  }
  // streaming export: without a single readable collection nothing is yielded
  const relX = {}
  for (const fn of byName('Vault.exportStream')) {
    const cs = []
    for (const role of ROLES) cs.push({ role, permissions: {} })
    judge('access', 'Vault.exportStream', fn, cs, c => canRead(c.role, c.permissions), c => {
      const o = outcome(w, fn, { types: { UnlockedKeyring: kr(c.role, c.permissions) }, isEvent: ts.isYieldExpression, rel: relX })
      return { vals: [!!o.f.yields], unknown: false }
    })
  }
  // which keys a new user receives
  const isWrap = n => ts.isCallExpression(n) && subtle(w, n) === 'wrapKey'
  const entries = [...w.fns].filter(f => w.pkgOf(f) === 'hub' && makesKeyFile(f))
  for (const fn of entries) {
    const opt = fn.parameters.find(p => /^(GrantOptions|BundleRecipient)$/.test(w.typeName(p)))
    if (!opt) continue
    for (const role of ['operator', 'client']) {
      const bad = []
      let seen = 0
      const I = new Interp(w, {
        isEvent: isWrap,
        assume: (e, ctx, I) => roleOf(e, opt, role),
        onAtom(e, pol, st, ctx) {
          // `name.startsWith('_')` holds
          const c = strip(e)
          if (pol && ts.isCallExpression(c) && ts.isPropertyAccessExpression(c.expression) && c.expression.name.text === 'startsWith' && c.arguments[0]?.text === '_') { const s = w.sym(strip(c.expression.expression)); if (s) return addMust(st, `sys:${s.id ?? (s.id = ++uid)}`) }
          return st
        },
        onCall(c, st, ctx, I) {
          if (!isWrap(c)) return undefined
          seen++
          // the key being wrapped: which collection name was it looked up under
          const why = keyScope(c.arguments[1], ctx, st, I)
          if (why) bad.push({ c, why, ctx })
          return undefined
        },
      }, { maxDepth: 6 })
      I.run(fn)
      if (!seen) continue
      rep.ob('keys', `${w.fnName(fn)} for a new ${role}`, bad.length === 0, { node: bad[0] ? bad[0].ctx.call ?? fn : fn, fn, msg: bad[0]?.why })
    }
  }
  function makesKeyFile(f) {
    const s = f.parameters.some(p => p.type && /^(GrantOptions|BundleRecipient)$/.test(w.typeName(p))) && f.parameters.some(p => w.typeName(p) === 'UnlockedKeyring')
    return s
  }
  function roleOf(e, opt, role) {
    if (ts.isPropertyAccessExpression(e) && e.name.text === 'role' && /^(GrantOptions|BundleRecipient)$/.test(w.typeName(e.expression))) return { vals: [role] }
    return undefined
  }
  function keyScope(arg, ctx, st, I) {
    for (const l of origins(w, arg, ctx, { callers: false, stop: e => ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'get' })) {
      const e = strip(l.expr)
      if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === 'get') {
        const nm = nameScope(e.arguments[0], l.ctx, st)
        if (nm) return nm
        continue
      }
      // loop over the caller's key map
      const d = ts.isIdentifier(stripAwait(arg)) ? stripAwait(arg) : null
      const nm = mapLoop(l, arg, ctx, st)
      if (nm) return nm
    }
    return null
  }
  /** A collection name comes from the new user's permission map or is internal. */
  function nameScope(e, ctx, st) {
    const s = ts.isIdentifier(strip(e)) ? w.sym(strip(e)) : null
    if (s && st.must.has(`sys:${s.id}`)) return null
    const ls = origins(w, e, ctx, { callers: false })
    const bad = ls.find(l => !/[pP]ermissions/.test(w.text(l.expr, 400)) && !l.path.includes('permissions') && !(l.expr.text ?? '').startsWith('_'))
    return bad || !ls.length ? `key of a collection the permission map does not name is wrapped (${w.text(e, 40)} at ${w.loc(e)})` : null
  }
  function mapLoop(l, arg, ctx, st) {
    // find the destructured loop [name, key] the key came from
    let id = stripAwait(arg), c = ctx
    for (let k = 0; k < 6 && ts.isIdentifier(id); k++) {
      const d = w.declOf(id)
      if (d && ts.isParameter(d)) { const a = w.argFor(d, c); if (!a?.expr) break; id = stripAwait(a.expr); c = a.ctx; continue }
      if (d && ts.isBindingElement(d) && ts.isArrayBindingPattern(d.parent)) {
        const nameEl = d.parent.elements[0]
        const s = nameEl && ts.isBindingElement(nameEl) ? w.sym(nameEl.name) : null
        if (s && st.must.has(`sys:${s.id}`)) return null
        return `every key of the caller reaches the new user (${w.loc(d)}), not only those the permission map names`
      }
      if (d && ts.isVariableDeclaration(d) && d.initializer) { id = stripAwait(d.initializer); continue }
      break
    }
    return `key of unknown collection is wrapped at ${w.loc(arg)}`
  }
  rep.atLeast('capability', 4)
  rep.atLeast('gate', 3)
  rep.atLeast('access', 2)
  rep.atLeast('keys', 2)
  rep.atLeast('permitted', 2)
  return 'Decision tables: every decision function and gate is evaluated abstractly for each role × permission map × capability × tier/format with all other data unknown, and compared with the documented matrix; the keys handed to a new operator or client are traced to the names they were looked up under.'
}
let uid = 1e6
