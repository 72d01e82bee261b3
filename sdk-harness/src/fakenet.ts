// Stands in for node:net: sockets end at the world's server instead of a network.
import { Duplex } from 'stream';
import { later, guard } from './sim';

export interface Peer { open(s: Socket): void; bytes(s: Socket, b: Buffer): void; end(s: Socket): void; gone(s: Socket): void }
export const world: { peer?: Peer; connectMs: () => number; accept: () => boolean; ackMs: () => number; all: Socket[] } = { connectMs: () => 1, accept: () => true, ackMs: () => 0, all: [] };

let ids = 0;
export class Socket extends Duplex {
  connecting = false;
  sid = ids++;
  up = false;
  private started = false;
  private waiting: (() => void)[] = [];
  remoteAddress = '127.0.0.1'; remotePort = 7654; localPort = 40000; localAddress = '127.0.0.1';
  bytesRead = 0; bytesWritten = 0;
  constructor(opts?: any) { super({ allowHalfOpen: false, emitClose: true, autoDestroy: true, decodeStrings: true }); world.all.push(this); }
  get pending() { return !this.up; }
  get readyState() { return this.connecting ? 'opening' : this.up && !this.destroyed ? 'open' : 'closed'; }
  connect(...args: any[]): this {
    const cb = args.find(a => typeof a === 'function');
    if (cb) this.once('connect', cb);
    if (this.destroyed || this.started) { process.nextTick(() => this.destroy(Object.assign(new Error('already used'), { code: 'EISCONN' }))); return this; }
    this.started = true; this.connecting = true;
    const ms = world.connectMs(), ok = world.accept(), w = world.peer;
    later(ms, () => {
      if (this.destroyed) return;
      this.connecting = false;
      if (!ok) { this.destroy(Object.assign(new Error('connect ECONNREFUSED 127.0.0.1:7654'), { code: 'ECONNREFUSED' })); return; }
      this.up = true;
      w?.open(this);
      this.emit('connect'); this.emit('ready');
      for (const f of this.waiting.splice(0)) f();
    });
    return this;
  }
  _read() {}
  _write(chunk: any, _e: any, cb: any) {
    if (!this.up) { if (!this.connecting) { cb(Object.assign(new Error('This socket is not connected'), { code: 'ENOTCONN' })); return; } this.waiting.push(() => this._write(chunk, _e, cb)); return; }
    this.bytesWritten += chunk.length;
    world.peer?.bytes(this, Buffer.from(chunk));
    const ms = world.ackMs();
    if (ms <= 0) cb(); else later(ms, () => { if (!this.destroyed) cb(); });
  }
  _final(cb: any) { if (this.up) world.peer?.end(this); cb(); }
  _destroy(err: any, cb: any) { this.connecting = false; const was = this.up; this.up = false; if (was) world.peer?.gone(this); cb(err); }
  destroySoon() { this.end(() => this.destroy()); }
  resetAndDestroy() { this.destroy(); return this; }
  setNoDelay() { return this; } setKeepAlive() { return this; } setTimeout(_ms?: number, _cb?: any) { return this; }
  setEncoding(e: any) { return super.setEncoding(e); }
  ref() { return this; } unref() { return this; }
  address() { return { address: '127.0.0.1', port: this.localPort, family: 'IPv4' }; }
  // --- what the other side does
  feed(b: Buffer) { if (!this.destroyed && this.up) { this.bytesRead += b.length; guard(() => { this.push(Buffer.from(b)); }); } }
  finish() { if (!this.destroyed && this.up) this.push(null); }
  reset() { if (!this.destroyed && this.up) this.destroy(Object.assign(new Error('read ECONNRESET'), { code: 'ECONNRESET' })); }
}
function norm(args: any[]) { return new Socket().connect(...args); }
export const connect = (...a: any[]) => norm(a);
export const createConnection = (...a: any[]) => norm(a);
export const isIP = (s: string) => (/^\d+\.\d+\.\d+\.\d+$/.test(s) ? 4 : 0);
export const Stream = Socket;
export default { Socket, connect, createConnection, isIP, Stream };
