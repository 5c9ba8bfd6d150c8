// node bundle.js ESBUILD MAIN.ts OUT.js
const [, , esbuild, main, out] = process.argv
require(esbuild).buildSync({
    entryPoints: [main],
    outfile: out,
    bundle: true,
    platform: 'node',
    format: 'cjs',
    target: 'node18',
    external: ['vscode', 'util', 'net', '../../native'],
    logLevel: 'error',
})
