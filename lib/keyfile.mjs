// Attributes of a key file that must survive every rewrite of it.
import { ts, strip, enclosingFn, mkCtx } from './world.mjs'
import { origins } from './prov.mjs'

const typeOf = (w, e) => {
  const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e))
  return t.aliasSymbol?.name ?? t.symbol?.name
}
const literalType = (w, n) => {
  const ct = w.checker.getContextualType(n)
  for (const t of ct ? (ct.isUnion?.() ? ct.types : [ct]) : []) {
    const name = t.aliasSymbol?.name ?? t.symbol?.name
    if (name === 'KeyringFile' || name === 'UnlockedKeyring') return name
  }
  return typeOf(w, n)
}

/**
 * `field.file` in the stored form, `field.ring` (pattern) in the unlocked form:
 * wherever one form is built for the same user as an existing one, the field is taken along.
 */
export function keepField(w, rep, rule, field, msg) {
  const known = e => ['UnlockedKeyring', 'KeyringFile'].includes(typeOf(w, e))
  for (const sf of w.sourceFiles) {
    if (!/\/packages\/hub\/src\//.test(sf.fileName)) continue
    const visit = n => {
      ts.forEachChild(n, visit)
      if (!ts.isObjectLiteralExpression(n)) return
      const kind = literalType(w, n)
      if (kind !== 'KeyringFile' && kind !== 'UnlockedKeyring') return
      const f = enclosingFn(n)
      if (!f) return
      const ctx = mkCtx(f)
      const own = kind === 'KeyringFile' ? 'user_id' : 'userId'
      const from = path => origins(w, n, ctx, { path, callers: true, stop: (e, c, p) => e !== n && p.length > 0 && known(e) })
      const src = origins(w, n, ctx, { path: [own], stop: (e, c, p) => e !== n && p.length > 0 && known(e) }).filter(l => known(l.expr) && /^user_?id$/i.test(l.path[0] ?? ''))
      if (!src.length) return
      const is = p => !!p && (p === field.file || field.ring.test(p))
      const names = kind === 'KeyringFile' ? [field.file] : ringNames(w, n, field.ring)
      const ok = names.some(name => from([name]).some(l => known(l.expr) && !ts.isObjectLiteralExpression(strip(l.expr)) && is(l.path[0])) || origins(w, n, ctx, { path: [name] }).some(l => is(l.path[0]) && !ts.isObjectLiteralExpression(strip(l.expr))))
      rep.ob(rule, `${w.fnName(f)} ${kind === 'KeyringFile' ? 'stores' : 'returns'} the ${field.file.replace('_', ' ')}`, ok, { node: n, fn: f, msg })
    }
    visit(sf)
  }
}
function ringNames(w, n, re) {
  const ct = w.checker.getContextualType(n) ?? w.checker.getTypeAtLocation(n)
  const all = (ct.isUnion?.() ? ct.types : [ct]).flatMap(t => w.checker.getPropertiesOfType(t).map(p => p.name))
  return [...new Set(all.filter(p => re.test(p)))]
}
