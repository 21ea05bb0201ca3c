// Loads every package's src/ into one type-checked program, with package
// imports mapped to source so that callees resolve across package borders.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'

const require = createRequire(import.meta.url)
function loadTs() {
  for (const p of ['/opt/veriftools/node/node_modules/typescript', '/repo/node_modules/typescript']) {
    try { return require(p) } catch { /* next */ }
  }
  throw new Error('typescript compiler not found')
}
export const ts = loadTs()
export const REPO = process.env.NOYDB_REPO || '/repo'

function walk(dir, out) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    if (e.name === 'node_modules' || e.name === 'dist' || e.name === '__tests__' || e.name === 'templates') continue
    const p = path.join(dir, e.name)
    if (e.isDirectory()) walk(p, out)
    else if (/\.(ts|tsx|mts)$/.test(e.name) && !/\.(test|spec|bench)\.tsx?$/.test(e.name) && !/\.d\.ts$/.test(e.name)) out.push(p)
  }
  return out
}

/** Source file an export subpath of a package is built from. */
function subpathSource(pkgDir, sub) {
  const base = path.join(pkgDir, 'src')
  const cands = sub === '.' ? ['index.ts', 'index.tsx'] : [`${sub}/index.ts`, `${sub}.ts`, `${sub}.tsx`]
  for (const c of cands) {
    const f = path.join(base, c)
    if (fs.existsSync(f)) return f
  }
  return null
}

export function loadProgram() {
  const pk = path.join(REPO, 'packages')
  const names = fs.readdirSync(pk).filter(n => fs.existsSync(path.join(pk, n, 'package.json')) && fs.existsSync(path.join(pk, n, 'src'))).sort()
  const paths = {}
  const roots = []
  const packages = []
  for (const n of names) {
    const dir = path.join(pk, n)
    const json = JSON.parse(fs.readFileSync(path.join(dir, 'package.json'), 'utf8'))
    packages.push({ dir, name: json.name, short: n, json })
    const ex = json.exports ?? { '.': {} }
    for (const key of Object.keys(ex)) {
      const sub = key === '.' ? '.' : key.replace(/^\.\//, '')
      const src = subpathSource(dir, sub)
      if (src) paths[sub === '.' ? json.name : `${json.name}/${sub}`] = [src]
    }
    if (!paths[json.name]) { const s = subpathSource(dir, '.'); if (s) paths[json.name] = [s] }
    walk(path.join(dir, 'src'), roots)
  }
  const base = ts.readConfigFile(path.join(REPO, 'tsconfig.base.json'), ts.sys.readFile).config.compilerOptions
  const conv = ts.convertCompilerOptionsFromJson({ ...base, noEmit: true, declaration: false, declarationMap: false, sourceMap: false, skipLibCheck: true, jsx: 'preserve', types: [] }, REPO)
  const options = { ...conv.options, paths, baseUrl: REPO }
  const nodeTypes = path.join(REPO, 'packages/hub/node_modules/@types/node/index.d.ts')
  if (fs.existsSync(nodeTypes)) roots.push(nodeTypes)
  const program = ts.createProgram(roots, options)
  const checker = program.getTypeChecker()
  return { program, checker, packages, roots }
}
