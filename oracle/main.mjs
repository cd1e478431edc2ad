// Oracle process: JSON lines in, JSON lines out.
import readline from 'node:readline';
import { exec } from './exec.mjs';
import { syntax } from './syntax.mjs';
import { lit } from './lit.mjs';
const lazy = {};
const load = (k, f) => lazy[k] ??= f();
const ops = {
  exec,
  syntax,
  lit,
  defs: async r => (await load('defs', () => import('./defs.mjs'))).defs(r),
  hygiene: async r => (await load('hygiene', () => import('./hygiene.mjs'))).hygiene(r),
  scope: async r => (await load('scope', () => import('./scope.mjs'))).scope(r),
  tserase: async r => (await load('tserase', () => import('./tserase.mjs'))).tserase(r),
  relate: async r => (await load('tsc', () => import('./tsc.mjs'))).relate(r),
  ping: async () => ({ pong: true }),
};
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let chain = Promise.resolve();
rl.on('line', line => {
  chain = chain.then(async () => {
    let ans;
    try { const req = JSON.parse(line); ans = await ops[req.op](req); }
    catch (e) { ans = { oracle_error: String(e && e.stack || e) }; }
    await new Promise(r => process.stdout.write(JSON.stringify(ans) + '\n', r));
  });
});
rl.on('close', () => { chain.then(() => process.exit(0)); });
