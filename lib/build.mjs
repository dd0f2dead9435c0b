// Bundle a check together with the current sources of /repo.
import { createRequire } from 'node:module'
import { existsSync, readFileSync, mkdirSync, rmSync, readdirSync, statSync, realpathSync } from 'node:fs'
import { join, dirname } from 'node:path'
import { fileURLToPath } from 'node:url'
const require = createRequire(import.meta.url)
const esbuild = require('/opt/veriftools/node/node_modules/esbuild')
export const ROOT = dirname(dirname(fileURLToPath(import.meta.url)))
export const REPO = process.env.VERIF_REPO || '/repo'

// Resolve '@noy-db/x[/sub]' to its TypeScript source.
function resolveNoydb(spec) {
  const [, name, sub] = /^@noy-db\/([^/]+)(?:\/(.+))?$/.exec(spec)
  const dir = join(REPO, 'packages', name)
  if (!existsSync(dir)) return null
  const cands = sub ? [`src/${sub}/index.ts`, `src/${sub}.ts`, `src/${sub}.tsx`] : ['src/index.ts', 'src/index.tsx']
  for (const c of cands) if (existsSync(join(dir, c))) return join(dir, c)
  const pj = JSON.parse(readFileSync(join(dir, 'package.json'), 'utf8'))
  const exp = pj.exports?.['./' + sub]
  const d = exp?.import?.default ?? exp?.default
  if (d) { const s = d.replace(/^\.\/dist\//, 'src/').replace(/\.js$/, '.ts'); if (existsSync(join(dir, s))) return join(dir, s) }
  return null
}
// third-party modules used directly by checks are resolved from the package that depends on them
const FROM = { yjs: 'in-yjs', 'fast-xml-parser': 'as-xml', 'fake-indexeddb': 'to-browser-idb', 'fake-indexeddb/auto': 'to-browser-idb', vue: 'in-vue', react: 'in-react', 'react-dom': 'in-react', 'react-dom/client': 'in-react', 'solid-js': 'in-solid', zustand: 'in-zustand', 'zustand/vanilla': 'in-zustand', zod: 'hub', pinia: 'in-pinia', 'happy-dom': 'in-react', '@aws-sdk/client-s3': 'to-aws-s3', '@aws-sdk/lib-dynamodb': 'to-aws-dynamo', '@aws-sdk/client-dynamodb': 'to-aws-dynamo', '@tanstack/query-core': 'in-tanstack-query', hono: 'in-rest', express: 'in-rest', fastify: 'in-rest' }
const plugin = {
  name: 'repo',
  setup(b) {
    b.onResolve({ filter: /^@noy-db\// }, a => { const p = resolveNoydb(a.path); return p ? { path: p } : undefined })
    // the node entry of solid-js is its non-reactive server build
    b.onResolve({ filter: /^solid-js$/ }, () => ({ path: realpathSync(join(REPO, 'packages/in-solid/node_modules/solid-js/dist/solid.js')) }))
    b.onResolve({ filter: /^[a-z@]/ }, a => {
      if (a.pluginData === 'x' || a.path.startsWith('@noy-db/') || a.path.startsWith('node:')) return
      if (!a.importer.startsWith(ROOT)) return
      const from = FROM[a.path]; if (!from) return
      return b.resolve(a.path, { resolveDir: join(REPO, 'packages', from), kind: a.kind, pluginData: 'x' })
    })
  },
}
export async function bundle(entryCode, outfile, { external = [] } = {}) {
  mkdirSync(dirname(outfile), { recursive: true })
  await esbuild.build({
    stdin: { contents: entryCode, resolveDir: ROOT, sourcefile: 'entry.mjs', loader: 'js' },
    bundle: true, format: 'esm', platform: 'node', target: 'node22', outfile, sourcemap: 'inline', sourcesContent: false,
    logLevel: 'error', plugins: [plugin], external: [...external], keepNames: true,
    banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr(import.meta.url);" },
    loader: { '.ts': 'ts', '.tsx': 'tsx' }, tsconfigRaw: { compilerOptions: { jsx: 'react-jsx' } },
  })
}
