// O05: internal bookkeeping is never exposed as user data.
import { ts, strip, stripAwait, walkNodes, isFnLike, enclosingFn, storeOp, publicApi, addMust, clearFacts, chain, K } from '../lib/common.mjs'
import { recordRun } from '../lib/records.mjs'

const INTERNAL = ['_keyring', '_ledger', '_sync', '_dict_x', '_blob_index']

export default async function (w, rep) {
  rep.rule('snapshot', 'a store puts a collection into a snapshot only after testing that its name is not internal')
  rep.rule('keep', 'saving a snapshot removes or replaces only collections tested not to be internal')
  rep.rule('open', 'an internal collection cannot be opened as an ordinary one')
  rep.rule('side records', 'index entries kept beside the records are never counted, listed, scanned, cached or exported as records')
  rep.rule('walk', 'exports and tool lists pass over internal collections')

  const typeOf = n => w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(n)))
  const one = (I, e, ctx) => { const v = e && I.constEval(e, ctx); return v && v.vals.length === 1 ? v.vals[0] : undefined }
  const SNAP = /^(VaultSnapshot|Record<string, Record<string, EncryptedEnvelope>>)$/
  const methodOf = (h, n) => {
    for (const m of h.members ?? h.properties ?? []) {
      if (m.name?.getText() !== n) continue
      const f = isFnLike(m) ? m : m.initializer ? w.resolveFnValue(m.initializer, null).map(t => t.fn)[0] : ts.isShorthandPropertyAssignment(m) ? w.resolveFnValue(m.name, null).map(t => t.fn)[0] : null
      if (f?.body) return f
    }
    return null
  }
  /** Identity of a string value: the variable (or member of a variable) it is read from. */
  const keyOf = (e, ctx, depth = 0) => {
    e = strip(e)
    if (depth > 12) return null
    if (ts.isPropertyAccessExpression(e)) { const b = keyOf(e.expression, ctx, depth + 1); return b && `${b}.${e.name.text}` }
    if (ts.isElementAccessExpression(e) && ts.isNumericLiteral(strip(e.argumentExpression))) { const b = keyOf(e.expression, ctx, depth + 1); return b && `${b}.${strip(e.argumentExpression).text}` }
    if (!ts.isIdentifier(e)) return null
    const d = w.declOf(e)
    if (!d) return null
    if (ts.isParameter(d) && ctx?.call && ctx.fn === d.parent) { const a = ctx.call.arguments?.[d.parent.parameters.indexOf(d)]; if (a) return keyOf(a, ctx.parent, depth + 1) }
    if (ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const) { const k = keyOf(d.initializer, ctx, depth + 1); if (k) return k }
    return `${d.getSourceFile().fileName}:${d.pos}`
  }
  /** Whether a loop variable comes from a list filtered to user collections. */
  const filtered = (e, ctx, I, name) => {
    e = strip(e)
    const d = ts.isIdentifier(e) ? w.declOf(e) : null
    const v = d && (ts.isBindingElement(d) ? d.parent.parent : d)
    if (!v || !ts.isVariableDeclaration(v) || !ts.isForOfStatement(v.parent?.parent)) return false
    let src = strip(v.parent.parent.expression)
    for (let i = 0; i < 6; i++) {
      if (ts.isIdentifier(src)) { const x = w.declOf(src); if (!x || !ts.isVariableDeclaration(x) || !x.initializer) return false; src = stripAwait(strip(x.initializer)) }
      if (ts.isCallExpression(src) && ts.isPropertyAccessExpression(strip(src.expression))) {
        const m = strip(src.expression).name.text
        if (m === 'filter') { const cb = w.resolveFnValue(src.arguments[0], ctx)[0]?.fn; if (cb && rejects(cb)) return true }
        src = strip(strip(src.expression).expression)
        continue
      }
      return false
    }
    return false
  }
  /** A predicate on a name (or an entry) that is false for internal names. */
  function rejects(cb) {
    return ['_keyring', '_x'].every(n => {
      const r = recordRun(w, cb, { rel: relCb, vals: true, maxDepth: 4, closures: true, isEvent: () => false, onRaise: () => null, assume(e) { if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && (ts.isParameter(d) && d.parent === cb && typeOf(d.name) === 'string' || ts.isBindingElement(d) && enclosingFn(d) === cb && typeOf(e) === 'string')) return { vals: [n] } } return undefined } })
      const v = Array.isArray(r.out.vals) ? r.out.vals : r.out.vals?.vals
      return v?.length === 1 && !v[0]
    })
  }
  const relCb = {}
  const tests = (e, pol, st, ctx, I) => {
    // what would the test say of an internal name?
    let out = st
    const seen = new Set()
    walkNodes(e, n => {
      if (!ts.isIdentifier(n) && !ts.isPropertyAccessExpression(n)) return
      if (ts.isIdentifier(n) && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) return
      if (!w.checker.getTypeAtLocation(n) || typeOf(n) !== 'string') return
      const k = keyOf(n, ctx)
      if (!k || seen.has(k)) return
      seen.add(k)
      const says = name => { probe = { k, name }; const v = I.constEval(e, ctx); probe = null; return v && v.vals.length === 1 ? !!v.vals[0] : undefined }
      const a = INTERNAL.map(says)
      if (a.every(x => x === !pol)) out = addMust(out, `user ${k}`)
    })
    return out
  }
  let probe = null
  const copies = (n, st, ctx) => {
    if (!ts.isBinaryExpression(n) || n.operatorToken.kind !== K.EqualsToken || !ts.isIdentifier(strip(n.left)) || typeOf(n.left) !== 'string') return st
    const k = `user ${keyOf(n.left, ctx)}`
    return st.must.has(`user ${keyOf(n.right, ctx)}`) ? addMust(st, k) : st.may.has(k) ? clearFacts(st, k) : st
  }
  const assumeProbe = (e, ctx) => probe && (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) && typeOf(e) === 'string' && keyOf(e, ctx) === probe.k ? { vals: [probe.name] } : undefined

  // ── stores ──
  const relL = {}, relS = {}
  let stores = 0
  const label = h => { const f = h.getSourceFile().fileName.split('/packages/')[1]; return `${f.split('/')[0]}${/\/hub\//.test('/' + f) ? ` ${h.name?.text ?? enclosingFn(h)?.name?.text ?? ''}` : ''}` }
  const isAdd = n => ts.isBinaryExpression(n) && (n.operatorToken.kind === K.EqualsToken || n.operatorToken.kind === K.QuestionQuestionEqualsToken) && ts.isElementAccessExpression(strip(n.left)) && SNAP.test(typeOf(strip(n.left).expression))
  for (const h of w.implementers('NoydbStore')) {
    const load = methodOf(h, 'loadAll'), save = methodOf(h, 'saveAll')
    if (!load || !save) continue
    let delegates = false, builds = false
    walkNodes(load.body, n => { if (ts.isCallExpression(n) && storeOp(w, n) === 'loadAll' || ts.isStringLiteral(n) && n.text === 'loadAll') delegates = true })
    const name = label(h)
    const own = f => w.pkgOf(f.getSourceFile()) === w.pkgOf(h.getSourceFile())
    if (!delegates) {
      stores++
      const adds = []
      const r = recordRun(w, load, {
        rel: relL, vals: false, maxDepth: 5, mayInline: own, closures: true, isEvent: isAdd,
        assume: (e, ctx) => assumeProbe(e, ctx), onRaise: () => null,
        onAtom: tests,
        onAssign(n, st, ctx, I) { st = copies(n, st, ctx); if (isAdd(n)) adds.push({ n, ctx, ok: tested(strip(n.left).argumentExpression, st, ctx, I) }); return st },
      })
      function tested(k, st, ctx, I) { return st.must.has(`user ${keyOf(k, ctx)}`) || filtered(k, ctx, I) }
      for (const a of adds) rep.ob('snapshot', `${name}: collected`, a.ok, { node: a.n, fn: load, path: chain(w, a.ctx), msg: 'a collection enters the snapshot although its name was not tested to be a user collection' })
      for (const e of returned(load)) {
        const b = builtHere(e, load)
        rep.ob('snapshot', `${name}: returned`, b || adds.length > 0 && !handsOut(e), { node: e, fn: load, msg: 'the stored snapshot is handed out as it is, internal collections included' })
      }
    }
    function returned(fn) { return w.returnExprs(fn).map(e => stripAwait(strip(e))) }
    function handsOut(e) { return ts.isCallExpression(e) }
    function builtHere(e, fn, depth = 0) {
      e = stripAwait(strip(e))
      if (depth > 6) return false
      if (ts.isObjectLiteralExpression(e)) return !e.properties.length || e.properties.every(p => ts.isSpreadAssignment(p) && builtHere(p.expression, fn, depth + 1))
      if (ts.isIdentifier(e)) { const d = w.declOf(e); return !!d && ts.isVariableDeclaration(d) && !!d.initializer && builtHere(d.initializer, fn, depth + 1) }
      if (ts.isConditionalExpression(e)) return builtHere(e.whenTrue, fn, depth + 1) && builtHere(e.whenFalse, fn, depth + 1)
      if (ts.isCallExpression(e)) {
        const t = w.resolveCall(e, null)
        if (!t.length) { const c = e.expression.getText(); if (c === 'Object.fromEntries') return hasReject(e.arguments[0]); return !SNAP.test(typeOf(e).replace(/^Promise<(.*)>$/, '$1')) || /^(rpc|call|request|send)/.test(c) }
        return t.every(x => x.fn.body && w.returnExprs(x.fn).length > 0 && w.returnExprs(x.fn).every(r => builtHere(r, x.fn, depth + 1)))
      }
      return false
    }
    function hasReject(e) { let y = false; walkNodes(e, n => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'filter') { const cb = w.resolveFnValue(n.arguments[0], null)[0]?.fn; if (cb && rejects(cb)) y = true } }); return y }

    let passes = false
    walkNodes(save.body, n => { if (ts.isCallExpression(n) && storeOp(w, n) === 'saveAll' || ts.isStringLiteral(n) && n.text === 'saveAll') passes = true })
    if (passes) continue
    const DEL = /^(delete|clear|unlink|rm|rmdir|removeItem|remove|del|deleteObject|deleteObjects|truncate)$/
    const ofData = (e, depth = 0) => { let y = false; walkNodes(e, n => { if (y || !ts.isIdentifier(n)) return; const d = w.declOf(n); if (d === dataParam) y = true; else if (d && depth < 4 && ts.isVariableDeclaration(d) && d.initializer && enclosingFn(d) === save && ofData(d.initializer, depth + 1)) y = true }); return y }
    const removes = n => {
      if (ts.isNewExpression(n)) return /^(DeleteObjects?Command|BatchWriteCommand|DeleteCommand)$/.test(n.expression.getText()) && /Delete/.test(n.getText()) ? 'removes stored objects' : null
      if (!ts.isCallExpression(n)) return null
      const c = strip(n.expression), m = ts.isPropertyAccessExpression(c) ? c.name.text : ts.isIdentifier(c) ? c.text : ''
      return DEL.test(m) ? `${m}()` : null
    }
    const sql = n => (ts.isNoSubstitutionTemplateLiteral(n) || ts.isTemplateExpression(n) || ts.isStringLiteral(n)) && /^[`'"]\s*(DELETE\s+FROM|TRUNCATE)/i.test(n.getText())
    const putsWhole = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'set' && n.arguments.length === 2 && SNAP.test(typeOf(n.arguments[1])) || ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && SNAP.test(typeOf(n.right)) && (ts.isElementAccessExpression(strip(n.left)) || ts.isPropertyAccessExpression(strip(n.left)))
    const found = []
    const dataParam = save.parameters[1]
    recordRun(w, save, {
      rel: relS, vals: false, maxDepth: 5, mayInline: own, closures: true,
      isEvent: n => !!removes(n) || putsWhole(n) || (ts.isCallExpression(n) && n.arguments.some(a => holdsSql(a))),
      assume: (e, ctx) => assumeProbe(e, ctx), onRaise: () => null,
      onAtom: tests,
      onAssign(n, st, ctx) { st = copies(n, st, ctx); if (putsWhole(n) && ofData(n.right)) found.push({ n, ctx, ok: merges(n.right) }); return st },
      onCall(c, st, ctx, I) {
        if (putsWhole(c)) { if (ofData(c.arguments[1])) found.push({ n: c, ctx, ok: merges(c.arguments[1]) }); return undefined }
        for (const a of c.arguments ?? []) if (holdsSql(a)) walkNodes(a, n => { if (sql(n)) found.push({ n, ctx, ok: sqlKeeps(n.getText()) || [...st.must].some(x => x.startsWith('user ')) }) })
        const m = removes(c)
        if (m && !inSql(c)) {
          const fresh = ts.isCallExpression(c) && ts.isPropertyAccessExpression(strip(c.expression)) && localOnly(strip(c.expression).expression)
          if (!fresh && !w.resolveCall(c, ctx).some(t => t.fn.body && reachesRemove(t.fn))) found.push({ n: c, ctx, ok: [...st.must].some(x => x.startsWith('user ')) || c.arguments?.some(a => filteredIn(a, ctx, I)) })
        }
        return undefined
      },
    })
    function holdsSql(a) { let y = false; walkNodes(a, n => { if (sql(n)) y = true }); return y }
    function inSql() { return false }
    function reachesRemove(f) { let y = false; walkNodes(f.body, n => { if (removes(n)) y = true }); return y }
    function filteredIn(a, ctx, I) { let y = false; walkNodes(a, n => { if (ts.isIdentifier(n) && filtered(n, ctx, I)) y = true }); return y }
    function localOnly(e) { e = strip(e); const d = ts.isIdentifier(e) ? w.declOf(e) : null; return !!d && ts.isVariableDeclaration(d) && d.initializer && ts.isNewExpression(strip(d.initializer)) && enclosingFn(d) === save }
    /** The value stored as the whole snapshot takes over something besides what was passed in. */
    function merges(e, depth = 0) {
      e = stripAwait(strip(e))
      if (depth > 5) return false
      const other = x => { let y = false; walkNodes(x, n => { if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) { const d = w.declOf(n); if (d && d !== dataParam && (ts.isVariableDeclaration(d) || ts.isBindingElement(d) || ts.isFunctionDeclaration(d))) y = true } }); return y }
      if (ts.isObjectLiteralExpression(e)) return e.properties.some(p => other(p))
      if (ts.isCallExpression(e)) return true
      if (ts.isIdentifier(e)) {
        const d = w.declOf(e)
        if (!d || d === dataParam || !ts.isVariableDeclaration(d)) return false
        if (d.initializer && merges(d.initializer, depth + 1)) return true
        let y = false
        walkNodes(enclosingFn(d)?.body ?? d, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isElementAccessExpression(strip(n.left)) && w.declOf(strip(strip(n.left).expression)) === d && other(n.right)) y = true })
        return y
      }
      return false
    }
    function sqlKeeps(t) { return /(substr(ing)?|left)\s*\(\s*collection\b[^)]*\)\s*(<>|!=)\s*'_'/i.test(t) || /\bcollection\s+NOT\s+LIKE\s+'(\\+|!|\|)_%'/i.test(t) || /\bcollection\s*!~\s*'\^_/i.test(t) }
    for (const x of found) rep.ob('keep', `${name}: saveAll`, x.ok, { node: x.n, fn: save, path: chain(w, x.ctx), msg: 'saving a snapshot removes or replaces collections that were not tested to be user collections: key files may be lost' })
  }
  rep.count('stores', stores)
  rep.atLeast('snapshot', 10); rep.atLeast('keep', 5)

  // ── opening ──
  const relO = {}
  const apiFns = [...publicApi(w).fns]
  for (const [fn, name] of apiFns) {
    if (name !== 'Vault.collection' || !fn.body) continue
    for (const n of ['_dict_', '_dict_status', '_keyring', '_ledger', '_ledger_deltas', '_history', '_sync', '_meta', '_periods', '_consent_audit', '_delegations', '_blob_index', '_blob_chunks', 'orders', 'dict_status', 'keyring']) {
      const r = recordRun(w, fn, { rel: relO, vals: true, maxDepth: 5, closures: true, isEvent: x => ts.isNewExpression(x) && /^Collection$/.test(x.expression.getText()), onRaise: () => null, assume(e) { return ts.isIdentifier(e) && w.declOf(e) === fn.parameters[0] ? { vals: [n] } : undefined } })
      const user = !n.startsWith('_')
      rep.ob('open', `${name}: ${n}`, user ? !!r.out.normal : !r.out.normal, { node: fn, fn, msg: user ? 'an ordinary collection cannot be opened' : 'an internal collection can be opened as an ordinary one' })
    }
  }
  rep.atLeast('open', 5)

  // ── walking ──
  // every list of names a caller iterates: which names survive
  const relW = {}
  const NAMES = ['_keyring', '_ledger', 'orders', '_dict_x']
  const walkers = [...w.fns].filter(f => f.body && (f.asteriskToken && /ExportedBlob/.test(returnType(f)) || /\/in-ai\//.test(f.getSourceFile().fileName) && returnType(f) === 'string[]' && f.parameters.some(p => /^Vault$/.test(typeOf(p.name)))))
  function returnType(f) { const s = w.checker.getSignatureFromDeclaration(f); return s ? w.checker.typeToString(w.checker.getReturnTypeOfSignature(s)) : '' }
  rep.count('walkers', walkers.length)
  for (const fn of walkers) {
    const opened = []
    const isOpen = c => ts.isCallExpression(c) && (() => { const x = strip(c.expression); const m = ts.isPropertyAccessExpression(x) ? x.name.text : ts.isIdentifier(x) ? x.text : ''; return /^(collection|getCollection)$/.test(m) || m === 'push' && typeOf(x.expression) === 'string[]' })()
    const run = recordRun(w, fn, {
      rel: relW, vals: true, maxDepth: 6, closures: true, isEvent: isOpen,
      assume(e, ctx, I) {
        if (ts.isCallExpression(e)) {
          const x = strip(e.expression), t = typeOf(e).replace(/^Promise<(.*)>$/, '$1')
          if (/^(readonly )?string\[\]$/.test(t) && !e.arguments.length) return { vals: [NAMES] }
          if (ts.isPropertyAccessExpression(x) && x.name.text === 'keys' && /deks$/.test(x.expression.getText())) return { vals: [NAMES] }
        }
        if (ts.isIdentifier(e) && /allow/i.test(e.text) || ts.isPropertyAccessExpression(e) && /^(collections|allowedCollections|allowlist)$/.test(e.name.text)) return { vals: [undefined] }
        return undefined
      },
      onRaise: () => null,
      onCall(c, st, ctx, I) { if (!isOpen(c)) return undefined; opened.push({ c, ctx, v: one(I, c.arguments[0], ctx) }); return { st, opaque: true, throwSt: null } },
    })
    const vals = returnType(fn) === 'string[]' ? (Array.isArray(run.out.vals) ? run.out.vals : run.out.vals?.vals ?? []) : []
    for (const v of vals) if (Array.isArray(v)) for (const x of v) rep.ob('walk', `${w.fnName(fn)}: lists`, typeof x === 'string' && !x.startsWith('_'), { node: fn, fn, msg: `the internal collection ${x} is listed` })
    for (const x of opened) rep.ob('walk', `${w.fnName(fn)}: takes`, typeof x.v === 'string' && !x.v.startsWith('_'), { node: x.c, fn, path: chain(w, x.ctx), msg: x.v === undefined ? 'a collection is taken although its name was not tested to be a user collection' : `the internal collection ${x.v} is taken` })
    rep.ob('walk', `${w.fnName(fn)}: user collections`, opened.some(x => x.v === 'orders') || vals.some(v => Array.isArray(v) && v.includes('orders')), { node: fn, fn, msg: 'user collections are passed over' })
  }
  for (const [fn, name] of apiFns) {
    if (name !== 'invokeToolCall' || !fn.body) continue
    for (const n of ['_keyring', '_ledger', 'orders']) {
      const r = recordRun(w, fn, {
        rel: {}, vals: true, maxDepth: 4, closures: true, isEvent: () => false, onRaise: () => null, mayInline: f => /\/in-ai\//.test(f.getSourceFile().fileName),
        assume(e) {
          if (ts.isCallExpression(e) && /collection: string/.test(typeOf(e)) && /op/.test(typeOf(e))) return { vals: [{ collection: n, op: 'list' }] }
          if (ts.isPropertyAccessExpression(e) && /^(allowedCollections|allowedOperations)$/.test(e.name.text)) return { vals: [undefined] }
          return undefined
        },
      })
      rep.ob('walk', `${name}: ${n}`, n === 'orders' ? !!r.out.normal : !r.out.normal, { node: fn, fn, msg: n === 'orders' ? 'a user collection is refused' : 'a tool call reaches an internal collection that was not allowed explicitly' })
    }
  }
  rep.atLeast('walk', 5)
  // ── index entries kept inside the collection ──
  const SIDE = '_idx/f/a', E1 = { _noydb: 1, _v: 1, _ts: 't', _iv: 'i', _data: 'side' }, E2 = { ...E1, _data: 'rec' }
  const relR = {}
  for (const [fn, name] of apiFns) {
    if (!/^(Collection\.(count|list|listPage|hydrateFromSnapshot)|Vault\.exportStream)$/.test(name) || !fn.body) continue
    for (const lazy of [true, false]) for (const paged of [true, false]) {
      if (name !== 'Collection.listPage' && !paged) continue
      const bad = []
      let touched = false
      const isSide = v => v === SIDE || v === E1
      const r = recordRun(w, fn, {
        rel: relR, vals: true, maxDepth: 6, closures: true,
        isEvent: n => ts.isCallExpression(n) && n.arguments.some(a => /^(string|EncryptedEnvelope)$/.test(typeOf(a))),
        mayInline: f => /\/(collection|vault|persisted-indexes)\.ts$/.test(f.getSourceFile().fileName),
        assume(e, ctx, I) {
          if (ts.isPropertyAccessExpression(e) && e.expression.kind === K.ThisKeyword) {
            if (e.name.text === 'lazy') return { vals: [lazy] }
            if (e.name.text === 'hydrated') return { vals: [false] }
          }
          if (ts.isPropertyAccessExpression(e) && e.name.text === 'listPage' && !(ts.isCallExpression(e.parent) && e.parent.expression === e)) return { vals: [paged ? { fn: 1 } : undefined] }
          if (ts.isIdentifier(e) && fn.parameters[0] && w.declOf(e) === fn.parameters[0]) return { vals: [name.endsWith('Snapshot') ? { [SIDE]: E1, r: E2 } : {}] }
          if (ts.isCallExpression(e)) {
            const op = storeOp(w, e)
            if (op === 'list') return { vals: [[SIDE, 'r']] }
            if (op === 'listPage') return { vals: [{ items: [{ id: SIDE, envelope: E1 }, { id: 'r', envelope: E2 }], nextCursor: null }] }
            if (op === 'loadAll') return { vals: [{ c: { [SIDE]: E1, r: E2 } }] }
            if (op === 'get') { const id = one(I, e.arguments[2], ctx); return { vals: [id === SIDE ? E1 : E2] } }
            if (w.resolveCall(e, null).some(t => t.fn.name?.text === 'hasAccess')) return { vals: [true] }
          }
          return undefined
        },
        onRaise: () => null,
        onStore({ c, op, st, ctx, I }) { if (op === 'get') { const id = one(I, c.arguments[2], ctx); if (id === SIDE) bad.push({ c, ctx }); else if (id === 'r') touched = true } return { st, opaque: true, throwSt: null } },
        onCall(c, st, ctx, I) {
          if (!ts.isCallExpression(c)) return undefined
          const x = strip(c.expression)
          const tests = w.resolveCall(c, ctx).some(t => /persisted-indexes/.test(t.fn.getSourceFile().fileName)) || ts.isPropertyAccessExpression(x) && typeOf(x.expression) === 'string'
          if (tests) return undefined
          const opens = ts.isPropertyAccessExpression(x) && x.name.text === 'get' && w.typeName(x.expression) === 'Collection'
          for (const a of c.arguments) if (/^(string|EncryptedEnvelope)$/.test(typeOf(a))) { const v = one(I, a, ctx); if (v === E1 || v === SIDE && (opens || /^(set|add|push)$/.test(x.name?.text ?? ''))) bad.push({ c, ctx }); else if (v === E2 || v === 'r') touched = true }
          return opens ? { st, opaque: true, throwSt: null } : undefined
        },
      })
      const what = `${name}${lazy ? ', lazy' : ''}${name.endsWith('listPage') ? paged ? ', paged store' : ', plain store' : ''}`
      if (name.endsWith('count') && lazy) {
        const v = Array.isArray(r.out.vals) ? r.out.vals : r.out.vals?.vals
        rep.ob('side records', what, v?.length === 1 && v[0] === 1, { node: fn, fn, msg: 'index entries are counted as records' })
        continue
      }
      if (lazy && name.endsWith('.list')) continue
      for (const b of bad) rep.ob('side records', what, false, { node: b.c, fn, path: chain(w, b.ctx), msg: 'an index entry is taken for a record' })
      rep.ob('side records', `${what}: records`, touched, { node: fn, fn, msg: 'the records themselves are not reached' })
    }
  }
  rep.atLeast('side records', 4)
  return `${stores} stores build snapshots; names opened and walked under ${NAMES.length} names`
}
