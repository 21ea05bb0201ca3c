// O02: exports never write outside the directory or archive the caller chose.
import { posix } from 'node:path'
import { ts, strip, walkNodes, isFnLike, enclosingFn, fsWrite, addMust, chain, K } from '../lib/common.mjs'
import { recordRun } from '../lib/records.mjs'

const OUTSIDE = ['..', '../x', '../../x', '/etc/x', 'a/../../x', './../x', '../dir-other/x', '../dir/../x', 'a/b/../../../x', '//x']
const INSIDE = ['a.txt', 'a', 'ก.pdf']
const rels = { dir: {}, zip: {}, san: {} }
const DIR = '/out/dir'

export default async function (w, rep) {
  rep.rule('contain', 'whatever name the data supplies, a path outside the chosen directory is refused before anything is written')
  rep.rule('archive', 'whatever ids and names the data supplies, an archive entry is a relative path without parent segments below the folder of its kind')
  rep.rule('sanitise', 'a sanitised file name has no separator and is not a parent reference; otherwise the name is refused')

  const one = (I, e, ctx) => { const v = e && I.constEval(e, ctx); return v && v.vals.length === 1 ? v.vals[0] : undefined }
  const safeIn = p => typeof p === 'string' && (p === DIR || posix.resolve(p).startsWith(DIR + '/')) && posix.isAbsolute(p)

  // ── directory exports: functions that walk attachments and write files ──
  const reach = (fn, test, seen = new Set()) => {
    if (seen.has(fn) || !fn.body) return false
    seen.add(fn)
    let y = false
    walkNodes(fn.body, n => { if (!y && ts.isCallExpression(n)) y = test(n) || w.resolveCall(n, null).some(t => t.fn.getSourceFile() === fn.getSourceFile() && reach(t.fn, test, seen)) })
    return y
  }
  const readsBlobs = n => ts.isPropertyAccessExpression(strip(n.expression)) && /^(exportBlobs|blob)$/.test(strip(n.expression).name.text)
  const exporters = [...w.fns].filter(f => f.body && isExported(f) && /node:fs|'fs/.test(f.getSourceFile().text) && reach(f, readsBlobs) && f.parameters.some(p => /^string$/.test(typeOf(p))) && reach(f, n => !!fsWrite(w, n) && !isParam(n.arguments[0], f)))
  function isParam(e, f) { e = strip(e); const d = ts.isIdentifier(e) ? w.declOf(e) : null; return !!d && ts.isParameter(d) && d.parent === f }
  function typeOf(n) { return w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(n))) }
  function isExported(f) { return ts.isFunctionDeclaration(f) && f.modifiers?.some(m => m.kind === K.ExportKeyword) }
  rep.count('directory exporters', exporters.length)
  const canon = (e, ctx) => {
    e = strip(e)
    for (let i = 0; i < 12 && ts.isIdentifier(e); i++) {
      const d = w.declOf(e)
      if (!d || !ts.isParameter(d) || !ctx?.call || ctx.fn !== d.parent) return d ?? e
      const a = ctx.call.arguments?.[d.parent.parameters.indexOf(d)]
      if (!a) return d
      e = strip(a); ctx = ctx.parent
    }
    return e
  }
  for (const fn of exporters) {
    const dirParam = fn.parameters.find(p => /^string$/.test(typeOf(p)))
    for (const profile of [undefined, 'posix', 'zip', 'url-path', 'opaque']) for (const name of [...OUTSIDE, ...INSIDE]) for (const clash of ['none', 'suffix', 'overwrite', 'own']) {
      if (clash !== 'none' && profile !== 'posix') continue
      const bad = OUTSIDE.includes(name)
      const writes = []
      const r = recordRun(w, fn, {
        rel: rels.dir, vals: true, maxDepth: 8, closures: true, mayInline: f => !f.getSourceFile().fileName.includes('/hub/'),
        isEvent: n => ts.isCallExpression(n) && !!fsWrite(w, n),
        assume(e, ctx, I) {
          if (ts.isIdentifier(e)) {
            const d = w.declOf(e)
            if (d === dirParam) return { vals: [DIR] }
            if (e.text === 'sep' && d && d.getSourceFile().fileName !== fn.getSourceFile().fileName) return { vals: ['/'] }
            return undefined
          }
          if (ts.isPropertyAccessExpression(e)) {
            if (e.name.text === 'filenameProfile') return { vals: [profile] }
            if (e.name.text === 'onCollision') return { vals: [clash === 'none' || clash === 'own' ? 'suffix' : clash] }
            if (/^string$/.test(typeOf(e)) && !ts.isThis(e.expression) && /^(filename|name|id|slot|blobId)$/.test(e.name.text)) return { vals: [name] }
            if (e.name.text === 'sep') return { vals: ['/'] }
          }
          if (ts.isCallExpression(e)) {
            const c = strip(e.expression)
            if (w.resolveCall(e, null).some(t => t.fn.name?.text === 'sanitizeFilename')) return { vals: [name] }
            // a name that cannot be told is taken to be the escaping one
            if (/(^|\.)(resolve|join)$/.test(c.getText()) && e.arguments.length === 2 && one(I, e.arguments[1], ctx) === undefined) { const d = one(I, e.arguments[0], ctx); if (typeof d === 'string') return { vals: [posix[/join$/.test(c.getText()) ? 'join' : 'resolve'](d, name)] } }
            if (ts.isIdentifier(c) && w.declOf(c) && ts.isParameter(w.declOf(c)) && /=>/.test(typeOf(c)) && typeOf(e) === 'string') return { vals: [name] }
            if (ts.isPropertyAccessExpression(c) && c.name.text === 'has' && /^Set<string>|^Map<string/.test(typeOf(c.expression)) && clash === 'none') return { vals: [false] }
          }
          return undefined
        },
        onRaise: () => null,
        onAtom(e, pol, st, ctx, I) {
          e = strip(e)
          if (pol && ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'startsWith' && one(I, e.arguments[0], ctx) === DIR + '/') {
            const d = canon(strip(e.expression).expression, ctx)
            if (d?.pos !== undefined) return addMust(st, `inside ${d.pos}`)
          }
          if (ts.isBinaryExpression(e) && [K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken].includes(e.operatorToken.kind) && pol === (e.operatorToken.kind === K.EqualsEqualsEqualsToken))
            for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) if (one(I, a, ctx) === DIR) { const d = canon(b, ctx); if (d?.pos !== undefined) return addMust(st, `inside ${d.pos}`) }
          return st
        },
        onCall(c, st, ctx, I) {
          if (!ts.isCallExpression(c) || !fsWrite(w, c)) return undefined
          writes.push({ c, ctx, p: one(I, c.arguments[0], ctx), tested: st.must.has(`inside ${canon(inner(c.arguments[0]), ctx)?.pos}`) })
          return { st: addMust(st, 'wrote'), opaque: true, throwSt: null }
        },
      })
      function inner(e) { e = strip(e); return ts.isCallExpression(e) && /dirname$/.test(e.expression.getText()) ? e.arguments[0] : e }
      const label = `${w.fnName(fn)}: ${profile ?? 'default'}${clash === 'none' ? '' : `, ${clash}`}: ${JSON.stringify(name)}`
      for (const x of writes) rep.ob('contain', label, x.tested || safeIn(x.p), { node: x.c, fn, path: chain(w, x.ctx), msg: x.p === undefined ? 'writes to a path that was not tested to lie inside the chosen directory' : `writes ${x.p} although the chosen directory is ${DIR}` })
      if (!writes.length) rep.ob('contain', label, false, { node: fn, fn, msg: 'writes nothing' })
      if (!bad && clash === 'none' && profile !== 'opaque') rep.ob('contain', `${label}: written`, writes.some(x => x.p === posix.join(DIR, name)), { node: fn, fn, msg: 'a harmless name is not written' })
    }
  }
  rep.atLeast('contain', 30)

  // ── archives: functions that hand entries made from attachments to the archive writer ──
  const zips = [...w.fns].filter(f => f.body && isExported(f) && has(f, readsBlobs) && has(f, n => w.resolveCall(n, null).some(t => t.fn.name?.text === 'writeZip')))
  function has(f, t) { let y = false; walkNodes(f.body, n => { if (!y && ts.isCallExpression(n)) y = t(n) }); return y }
  rep.count('archive exporters', zips.length)
  for (const fn of zips) for (const name of [...OUTSIDE, ...INSIDE, '..\\x', 'a\\..\\..\\x', '.', '', 'C:x']) {
    const paths = []
    const leaf = (e, I, ctx) => {
      if (ts.isIdentifier(e)) {
        const d = w.declOf(e)
        if (!d || !enclosingFn(d) || typeOf(e) !== 'string') return undefined
        const outer = enclosingFn(d)
        if (outer !== fn && !isFnIn(outer, fn)) return undefined
        if (ts.isBindingElement(d) || ts.isVariableDeclaration(d) && !d.initializer) return { vals: [name] }
        if (ts.isParameter(d)) return d.parent === fn ? undefined : { vals: [name] }
      }
      if (ts.isPropertyAccessExpression(e) && typeOf(e) === 'string' && /^(name|slot|id|recordId|filename|blobId)$/.test(e.name.text)) return { vals: [name] }
      return undefined
    }
    function isFnIn(f, g) { for (let p = f; p; p = p.parent) if (p === g) return true; return false }
    recordRun(w, fn, {
      rel: rels.zip, vals: true, maxDepth: 6, closures: true, mayInline: f => !f.getSourceFile().fileName.includes('/hub/'),
      isEvent: n => ts.isObjectLiteralExpression(n) && n.properties.some(isPath),
      assume: (e, ctx, I) => leaf(e, I, ctx),
      onRaise: () => null,
      onExpr(n, st, ctx, I) {
        if (!ts.isObjectLiteralExpression(n)) return
        const p = n.properties.find(isPath)
        if (!p) return
        const v = p.initializer ?? p.name
        const x = strip(v)
        if (ts.isPropertyAccessExpression(x) && x.name.text === 'path') return
        if (ts.isShorthandPropertyAssignment(p) && (() => { const d = w.declOf(p.name) ?? w.checker.getShorthandAssignmentValueSymbol(p)?.valueDeclaration; return d && (ts.isBindingElement(d) || ts.isParameter(d)) })()) return
        paths.push({ n, ctx, v: one(I, ts.isShorthandPropertyAssignment(p) ? (w.checker.getShorthandAssignmentValueSymbol(p)?.valueDeclaration?.initializer ?? p.name) : v, ctx) })
      },
    })
    function isPath(p) { return p.name?.getText() === 'path' && (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) }
    const label = `${w.fnName(fn)}: ${JSON.stringify(name)}`
    for (const x of paths) {
      const ok = typeof x.v === 'string' && x.v !== '' && !x.v.startsWith('/') && !x.v.includes('\\') && x.v.split('/').every(s => s !== '' && s !== '.' && s !== '..') && !/^[A-Za-z]:/.test(x.v)
      rep.ob('archive', label, ok, { node: x.n, fn, path: chain(w, x.ctx), msg: x.v === undefined ? 'cannot tell the path of an archive entry' : `writes the archive entry ${JSON.stringify(x.v)}` })
    }
    if (!paths.some(x => typeof x.v !== 'string' || x.v.split('/').length > 1)) rep.ob('archive', label, false, { node: fn, fn, msg: 'no entry for the attachment' })
  }
  rep.atLeast('archive', 20)

  // ── the sanitiser ──
  const san = [...w.fns].filter(f => f.body && f.name?.text === 'sanitizeFilename')
  if (!san.length) rep.missing('sanitise', 'sanitizeFilename')
  for (const fn of san) for (const profile of ['posix', 'windows', 'macos-smb', 'zip', 's3-key', 'url-path', 'opaque']) for (const name of ['..', '.', '../x', 'a/../x', 'a/..', '..\\x', 'a\\..\\x', '/x', '/../x', 'a\0b', 'a.txt', 'A', 'a/.\x01./x', '.\x01.']) {
    const loops = e => w.resolveCall(e, null).some(t => t.fn.body && (() => { let y = false; walkNodes(t.fn.body, n => { if (ts.isForStatement(n) || ts.isWhileStatement(n) || ts.isForOfStatement(n)) y = true }); return y })())
    /** What a walk over the characters puts in the place of a control character ('' when it may leave it out). */
    const keepsEach = (e, I, ctx) => {
      for (const t of w.resolveCall(e, null)) {
        let body = null
        walkNodes(t.fn.body ?? t.fn, n => { if (ts.isForStatement(n) || ts.isForOfStatement(n)) body = n.statement })
        if (!body) return null
        let adds = null, gone = false
        walkNodes(body, n => {
          if (ts.isContinueStatement(n)) gone = true
          if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusEqualsToken) { adds = n; for (let p = n.parent; p && p !== body.parent; p = p.parent) if (ts.isIfStatement(p) && !p.elseStatement) gone = true }
        })
        if (!adds) return undefined
        const arms = []
        const split = x => { x = strip(x); if (ts.isConditionalExpression(x)) { split(x.whenTrue); split(x.whenFalse) } else arms.push(x) }
        split(adds.right)
        return gone || arms.some(a => one(I, a, ctx) === '') ? '' : '_'
      }
      return undefined
    }
    const r = recordRun(w, fn, {
      rel: rels.san, vals: true, maxDepth: 8, closures: true, isEvent: () => false,
      assume(e, ctx, I) {
        if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isParameter(d) && d.parent === fn) { const i = fn.parameters.indexOf(d); return i === 0 ? { vals: [name] } : { vals: [{ profile, opaqueId: 'ID', maxBytes: undefined }] } } }
        if (ts.isPropertyAccessExpression(e) && /^(byteLength|length)$/.test(e.name.text) && ts.isCallExpression(strip(e.expression)) && /\.encode$/.test(strip(e.expression).expression.getText())) { const v = one(I, strip(e.expression).arguments[0], ctx); if (typeof v === 'string') return { vals: [Buffer.byteLength(v)] } }
        // a walk over the characters leaves a plain name as it is
        if (ts.isCallExpression(e) && e.arguments.length && typeOf(e) === 'string' && loops(e) && e.arguments.length !== 2) { const v = one(I, e.arguments[0], ctx); if (typeof v === 'string' && !/^url|^s3/.test(profile)) { if (/^[\x21-\x7e]*$/.test(v)) return { vals: [v] }; const h = keepsEach(e, I, ctx); if (h === null && !/^[\x00-\x20]|[\x00-\x20]$/.test(v)) return { vals: [v] }; if (typeof h === 'string') return { vals: [v.replace(/[\x00-\x1f]/g, h)] } } }
        return undefined
      },
      onRaise: () => null,
    })
    const v = r.out.vals
    const label = `${w.fnName(fn)}: ${profile}: ${JSON.stringify(name)}`
    if (!r.out.normal) { if (name === 'a.txt' || name === 'A') rep.ob('sanitise', label, false, { node: fn, fn, msg: 'refuses a harmless name' }); else rep.ob('sanitise', label, true, { node: fn, fn }); continue }
    if (name.includes('\0')) { rep.ob('sanitise', label, false, { node: fn, fn, msg: 'accepts a name with a NUL character' }); continue }
    const vs = Array.isArray(v) && v.length ? v : v?.vals?.length ? v.vals : null
    if (!vs || vs.some(x => typeof x !== 'string')) { rep.count('sanitise: undecided', 1); continue }
    if (/^url|^s3/.test(profile)) continue
    rep.ob('sanitise', label, vs.every(x => !x.startsWith('/') && x.split(/[/\\]/).every(s => s !== '..') && x !== '.' && (profile === 'zip' || !x.includes('/'))), { node: fn, fn, msg: `gives ${vs.map(x => JSON.stringify(x)).join(' or ')}` })
  }
  rep.atLeast('sanitise', 10)
  return `${exporters.length} directory exporters and ${zips.length} archive exporters under ${OUTSIDE.length} escaping and ${INSIDE.length} harmless names`
}
