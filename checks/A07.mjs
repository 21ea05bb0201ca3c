// A07: historical and presentation views expose no way to modify data.
import { ts, strip, storeOp, publicApi, Interp, thrownClass, chain, hasMod, K } from '../lib/common.mjs'
import { knownPrefix } from './A01.mjs'

const WRITES = ['put', 'delete', 'saveAll', 'tx']
/** Types through which data can be modified. */
const LIVE = /^(Collection|Vault|Noydb|NoydbStore|LedgerStore|VaultEngine|BlobSet|TxContext|TxVault|TxCollection|SyncEngine|DictionaryHandle|UnlockedKeyring|ElevatedHandle)$/
export default async function (w, rep) {
  rep.rule('write', 'no operation of a view reaches a store write or delete, other than the log of the read itself and the reader\'s own key file')
  rep.rule('refuse', 'every operation a view shares by name with a modifying operation of the live object fails with a read-only error before any store access')
  rep.rule('closed', 'no public member of a view hands out the live vault, collection, ledger, key material or store')
  const api = publicApi(w)
  const byName = n => [...api.fns].filter(([f, nm]) => nm === n && w.pkgOf(f) === 'hub').map(([f]) => f)
  let rel = null
  const explore = fn => {
    const hits = [], access = []
    const throws = new Set()
    const I = new Interp(w, {
      isEvent: n => ts.isThrowStatement(n) || ts.isCallExpression(n) && !!storeOp(w, n),
      onThrow(s, st, ctx) { throws.add(thrownClass(w, s) ?? '?') },
      onCall(c, st, ctx, I) {
        const op = storeOp(w, c)
        if (!op) return undefined
        access.push(c)
        if (WRITES.includes(op)) {
          const p = op === 'saveAll' || op === 'tx' ? '' : knownPrefix(w, I, c.arguments[1], ctx)
          if (!/^(_consent_audit|_keyring)$/.test(p)) hits.push({ c, ctx, op, p })
        }
        return { st, opaque: true, throwSt: st }
      },
    }, { maxDepth: 12 })
    I.relevant = rel; I._computeRelevant(); rel = I.relevant
    const f = I.run(fn)
    return { hits, access, throws, completes: !!(f.normal || f.yields) }
  }
  // classes reachable from the two entry points
  const unwrap = t => { for (let i = 0; i < 4 && t; i++) { const n = t.symbol?.name; if (/^(Promise|Array|ReadonlyArray|AsyncIterable|AsyncGenerator|AsyncIterableIterator)$/.test(n ?? '')) t = w.checker.getTypeArguments(t)[0]; else break } return t }
  const clsOf = t => { t = unwrap(t); const d = t?.symbol?.declarations?.find(ts.isClassDeclaration); return d && w.isRepoFile(d.getSourceFile()) ? d : null }
  const views = new Map()
  const visit = (cls, via) => {
    if (!cls || views.has(cls)) return
    const name = cls.name?.text ?? ''
    if (LIVE.test(name)) return
    views.set(cls, via)
    for (const m of w.publicMethods(cls)) {
      const sig = w.checker.getSignatureFromDeclaration(m)
      if (sig) visit(clsOf(w.checker.getReturnTypeOfSignature(sig)), `${name}.${m.name.getText()}`)
    }
  }
  for (const entry of ['Vault.at', 'Vault.frame']) {
    const fs = byName(entry)
    if (!fs.length) rep.missing('write', entry)
    for (const f of fs) { const sig = w.checker.getSignatureFromDeclaration(f); visit(clsOf(w.checker.getReturnTypeOfSignature(sig)), entry) }
  }
  // names of modifying operations of the live objects
  const modifying = new Set()
  for (const cn of ['Collection', 'Vault']) for (const c of w.findClass(cn, 'packages/hub/')) for (const m of w.publicMethods(c)) {
    const n = m.name.getText()
    if (n.startsWith('_') || modifying.has(n)) continue
    const sig = w.checker.getSignatureFromDeclaration(m)
    if (explore(m).hits.some(h => !h.p.startsWith('_') && !isIndex(h))) modifying.add(n)
  }
  function isIndex(h) { return /[iI]ndex/.test(chain(w, h.ctx).join(' ')) }
  rep.count('modifying_operation_names', modifying.size)
  for (const [cls, via] of views) {
    const cn = cls.name?.text ?? '?'
    for (const m of w.publicMethods(cls)) {
      const n = m.name.getText()
      const r = explore(m)
      const bad = r.hits[0]
      rep.ob('write', `${cn}.${n}`, !bad, { node: bad?.c ?? m, fn: m, msg: bad ? `reaches ${w.text(bad.c, 70)}` : '', path: bad ? chain(w, bad.ctx) : [] })
      if (modifying.has(n) && /^(Collection|Vault)(Frame|Instant)$/.test(cn) || /never/.test(retText(m))) rep.ob('refuse', `${cn}.${n}`, !r.completes && !r.access.length && r.throws.size > 0 && [...r.throws].every(t => /ReadOnly/.test(t)), { node: m, fn: m, msg: r.completes ? 'the operation can succeed' : r.access.length ? `touches the store: ${w.text(r.access[0], 60)}` : `fails with ${[...r.throws].join(', ') || 'nothing'} instead of a read-only error` })
      const sig = w.checker.getSignatureFromDeclaration(m)
      const t = sig && unwrap(w.checker.getReturnTypeOfSignature(sig))
      const live = liveType(t)
      rep.ob('closed', `${cn}.${n}`, !live, { node: m, fn: m, msg: `hands out a ${live}` })
    }
    const members = []
    for (const m of cls.members) {
      if (ts.isConstructorDeclaration(m)) for (const p of m.parameters) { if (p.modifiers?.some(x => [K.PublicKeyword, K.ReadonlyKeyword].includes(x.kind)) && !hasMod(p, K.PrivateKeyword) && !hasMod(p, K.ProtectedKeyword)) members.push(p) }
      if ((ts.isPropertyDeclaration(m) || ts.isGetAccessorDeclaration(m)) && !hasMod(m, K.PrivateKeyword) && !hasMod(m, K.ProtectedKeyword) && !ts.isPrivateIdentifier(m.name)) members.push(m)
    }
    for (const m of members) { const live = liveType(w.checker.getTypeAtLocation(m)); rep.ob('closed', `${cn}.${m.name.getText()}`, !live, { node: m, msg: `exposes a ${live}` }) }
  }
  function retText(m) { const sig = w.checker.getSignatureFromDeclaration(m); return sig ? w.checker.typeToString(w.checker.getReturnTypeOfSignature(sig)) : '' }
  function liveType(t) {
    t = unwrap(t)
    if (!t) return null
    for (const x of t.isUnion?.() ? t.types : [t]) {
      const n = x.aliasSymbol?.name ?? x.symbol?.name
      if (n && LIVE.test(n)) return n
      if (n === 'CryptoKey') return n
    }
    return null
  }
  // what Vault.at and Vault.frame return must be one of the sealed views, not the vault itself
  for (const entry of ['Vault.at', 'Vault.frame']) for (const f of byName(entry)) {
    const sig = w.checker.getSignatureFromDeclaration(f)
    const t = unwrap(w.checker.getReturnTypeOfSignature(sig))
    const n = t?.symbol?.name ?? w.checker.typeToString(t)
    rep.ob('closed', entry, !!clsOf(t) && !liveType(t), { node: f, fn: f, msg: `returns ${n}` })
  }
  rep.count('view_classes', views.size)
  rep.atLeast('write', 15); rep.atLeast('refuse', 7); rep.atLeast('closed', 15)
  return 'From Vault.at and Vault.frame every class reachable through return types is collected; each public operation is interpreted interprocedurally for reachable store writes, operations named like modifying ones must throw a read-only error before any store access, and public members may not have a live type.'
}
