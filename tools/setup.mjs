// Nothing to build ahead of time: each check bundles the current sources itself. This only
// verifies that the tools the checks use are present.
import { existsSync, mkdirSync } from 'node:fs'
const [maj] = process.versions.node.split('.').map(Number)
if (maj < 22) { console.error('node 22 or newer is required'); process.exit(2) }
if (!existsSync('/opt/veriftools/node/node_modules/esbuild')) { console.error('esbuild not found'); process.exit(2) }
if (!existsSync('/repo/packages/hub/src')) { console.error('/repo sources not found'); process.exit(2) }
mkdirSync(new URL('../.build', import.meta.url).pathname, { recursive: true })
console.log('ok')
