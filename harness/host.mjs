// A controllable host for the runtime: callbacks and commits run when the
// harness says so, in any order.
import { createRequire } from 'node:module';
export class HostAdapter {
  constructor(c, { priority } = {}) {
    this.c = c;
    this.inner = new c.B.DOMAdapter();
    this.q = [];
    this.commits = [];
    this.priority = priority ?? (() => 'user-visible');
    this.requested = [];
  }
  getIdentifier() {
    return this.inner.getIdentifier();
  }
  getTaskPriority() {
    return this.priority();
  }
  renderPortal(e) {
    return this.inner.renderPortal(e);
  }
  renderTemplate(e) {
    return this.inner.renderTemplate(e);
  }
  requestCallback(cb, o) {
    this.requested.push(o);
    return new Promise((res, rej) => {
      this.q.push(() => {
        try {
          res(cb());
        } catch (e) {
          rej(e);
        }
      });
    });
  }
  requestCommit(cb) {
    return new Promise((res, rej) => {
      this.commits.push(() => {
        try {
          cb();
          res();
        } catch (e) {
          rej(e);
        }
      });
    });
  }
  /** Runs one outstanding callback or commit; any of them, unless told which. */
  run(which) {
    const c = this.c;
    if (which !== 'callback' && this.commits.length && (which === 'commit' || c.bool())) {
      this.commits.splice(c.int(this.commits.length), 1)[0]();
      return true;
    }
    if (which !== 'commit' && this.q.length) {
      this.q.splice(c.int(this.q.length), 1)[0]();
      return true;
    }
    if (which === undefined && this.commits.length) {
      this.commits.shift()();
      return true;
    }
    return false;
  }
  /** Runs everything until nothing is outstanding. */
  async drain(max = 300) {
    for (let i = 0; i < max; i++) {
      await new Promise((r) => setImmediate(r));
      await new Promise((r) => setImmediate(r));
      if (!this.run()) {
        await new Promise((r) => setImmediate(r));
        if (this.q.length === 0 && this.commits.length === 0) return;
      }
    }
    this.c.fail('the host is asked for callbacks without end');
  }
}
export const norm = (h) => h.replace(/<!--.*?-->/gs, '');
