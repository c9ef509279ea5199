// C31: the work of a message does not grow with the history of the ledger
import { Mon } from './base.mjs';
export class Work extends Mon {
  constructor() { super('C31'); }
  judge(w, e) {
    if (e.outcome[0] !== e.outcome[1]) { this.tally('outcome differs'); return; }
    for (const k of ['steps', 'bytes']) {
      const x = e.little[k], y = e.much[k]; if (k === 'steps' && y === 0) throw new Error('the module is not metered');
      if (process.env.WORK_DEBUG) console.log(e.label, k, x, y, (y / Math.max(1, x)).toFixed(2));
      if (y > 6 * x + 4000) return this.bad(w, 'the work of a message grows with the history', { message: e.label, measured: k, entries: e.sizes, work: [x, y] });
    }
    this.ev(e.label + ':' + e.outcome[0] + ':' + e.expire + ':' + e.sizes[1], () => e);
  }
  memory(w, e) {
    if (process.env.WORK_DEBUG) console.log(e);
    if (e.after[0] - e.before[0] > 3) return this.bad(w, 'the working memory grows with the history', e);
    this.ev('memory:' + e.lapse + ':' + e.messages, () => e);
  }
}
