// Runs the add-on example (directory argv[2]) with stand-ins of browser API.
// Each line of input is a case, a line of output is what has been observed.
"use strict";
const vm = require("vm"), fs = require("fs"), path = require("path"), cp = require("child_process"), readline = require("readline");

const source = {};
for (const n of ["rpc_client.js", "background.js"])
	source[n] = new vm.Script(fs.readFileSync(path.join(process.argv[2], n), "utf8"), { filename: n });

class Listeners {
	constructor() { this.l = new Set(); }
	addListener(f) { this.l.add(f); }
	removeListener(f) { this.l.delete(f); }
	hasListener(f) { return this.l.has(f); }
	fire(...a) {
		for (const f of [...this.l]) {
			try { f(...a); } catch (e) { this.error = String(e); }
		}
	}
}

class Port {
	constructor(name) {
		this.name = name;
		this.onMessage = new Listeners();
		this.onDisconnect = new Listeners();
		this.error = null;
		this.connected_ = true;
	}
	postMessage(m) {
		if (!this.connected_)
			throw new Error("Attempt to postMessage on disconnected port");
		this.post_(JSON.stringify(m));
	}
	disconnect() { this.connected_ = false; this.close_ && this.close_(); }
	lost_(error) {
		if (!this.connected_)
			return;
		this.connected_ = false;
		this.error = error;
		this.onDisconnect.fire(this);
	}
}

function context(connectNative, extra) {
	const logs = [];
	const browser = { runtime: { connectNative, onInstalled: new Listeners() }, ...extra };
	const log = kind => (...a) => { logs.push([kind, a]); };
	const ctx = vm.createContext({ browser, console: { log: log("log"), error: log("error"), debug: log("debug"), warn: log("warn"), info: log("info") } });
	return { ctx, browser, logs };
}

const flush = () => new Promise(r => setImmediate(r));

function track(p) {
	const s = { state: "pending", settled: 0 };
	Promise.resolve(p).then(
		v => { s.state = "ok"; s.value = v === undefined ? null : v; s.undef = v === undefined; },
		e => { s.state = "error"; s.message = e && e.message !== undefined ? String(e.message) : String(e); });
	return s;
}
const snapshot = calls => calls.map(c => ({ ...c }));

// Stand-in of the native application.
async function model(c) {
	const ports = [], calls = [], steps = [];
	let failPost = null, failConnect = null;
	const { ctx } = context(id => {
		if (failConnect !== null) {
			const e = failConnect;
			failConnect = null;
			throw new Error(e);
		}
		const p = new Port(id);
		p.index = ports.push(p) - 1;
		p.post_ = text => {
			if (failPost !== null) {
				const e = failPost;
				failPost = null;
				throw new Error(e);
			}
			posted.push({ port: p.index, text, live: p.onMessage.l.size > 0 });
		};
		return p;
	});
	const posted = [];
	source["rpc_client.js"].runInContext(ctx);
	const Client = vm.runInContext("JsonRpcClient", ctx);
	const client = new Client("test.app", { debug: c.debug });
	const last = () => ports[ports.length - 1];
	const errors = [];
	for (const op of c.ops) {
		switch (op.op) {
		case "call":
			failPost = op.failPost === undefined ? null : op.failPost;
			if (!(last() && last().connected_) && op.failConnect !== undefined)
				failConnect = op.failConnect;
			calls.push(track(client.sendMessage(op.method, op.arg)));
			failPost = failConnect = null;
			break;
		case "reply": {
			const p = posted[op.to];
			if (p && ports[p.port].connected_) {
				const m = { id: JSON.parse(p.text).id };
				if (op.result !== undefined) m.result = op.result;
				if (op.error !== undefined) m.error = op.error;
				ports[p.port].onMessage.fire(m);
			}
			break;
		}
		case "raw":
			if (last() && last().connected_)
				last().onMessage.fire(op.message === undefined ? undefined : op.message);
			break;
		case "disconnect":
			if (last())
				last().lost_(op.error === undefined ? null : new Error(op.error));
			break;
		}
		if (!op.sync)
			await flush();
		steps.push({ states: op.sync ? null : snapshot(calls), posted: posted.length, ports: ports.length });
	}
	await flush();
	for (const p of ports)
		for (const l of [p.onMessage, p.onDisconnect])
			if (l.error) errors.push(l.error);
	return { steps, posted, final: snapshot(calls), errors };
}

// The native application is a real one.
function nativePort(id, cmd) {
	const p = new Port(id);
	const child = cp.spawn(cmd[0], cmd.slice(1), { stdio: ["pipe", "pipe", "ignore"] });
	p.child_ = child;
	let buf = Buffer.alloc(0);
	child.stdin.on("error", () => {});
	child.stdout.on("data", d => {
		buf = Buffer.concat([buf, d]);
		while (buf.length >= 4 && buf.length >= 4 + buf.readUInt32LE(0)) {
			const n = buf.readUInt32LE(0);
			const m = JSON.parse(buf.subarray(4, 4 + n).toString("utf8"));
			buf = buf.subarray(4 + n);
			if (p.connected_) p.onMessage.fire(m);
		}
	});
	p.ended_ = new Promise(r => child.on("close", code => { p.code_ = code; p.lost_(null); r(); }));
	p.post_ = text => {
		const b = Buffer.from(text, "utf8"), h = Buffer.alloc(4);
		h.writeUInt32LE(b.length, 0);
		child.stdin.write(Buffer.concat([h, b]));
	};
	p.close_ = () => child.stdin.end();
	return p;
}

async function end(ports) {
	for (const p of ports)
		p.child_.stdin.end();
	for (const p of ports)
		await p.ended_;
	return ports.map(p => p.code_);
}

async function real(c) {
	const ports = [];
	const { ctx } = context(id => {
		const p = nativePort(id, c.command);
		ports.push(p);
		return p;
	});
	source["rpc_client.js"].runInContext(ctx);
	const Client = vm.runInContext("JsonRpcClient", ctx);
	const client = new Client("test.app");
	const rounds = [];
	for (const r of c.rounds) {
		const calls = [];
		const settled = r.calls.map(x => {
			const p = client.sendMessage(x.method, x.arg);
			calls.push(track(p));
			return p.then(() => {}, () => {});
		});
		if (r.kill) {
			await flush();
			ports[ports.length - 1].child_.kill("SIGKILL");
			await ports[ports.length - 1].ended_;
		}
		await Promise.all(settled);
		await flush();
		rounds.push(snapshot(calls));
	}
	return { rounds, ports: ports.length, codes: await end(ports) };
}

async function menu(c) {
	const ports = [], items = new Map();
	const menus = { onClicked: new Listeners(), create: o => { items.set(o.title, o.id); return o.id; } };
	const { ctx, browser, logs } = context(id => {
		const p = nativePort(id, c.command);
		ports.push(p);
		return p;
	}, { menus });
	source["rpc_client.js"].runInContext(ctx);
	source["background.js"].runInContext(ctx);
	browser.runtime.onInstalled.fire({ reason: "install" });
	const titles = [...items.keys()];
	for (const k of c.clicks)
		menus.onClicked.fire({ menuItemId: items.get(titles[k % titles.length]) });
	await flush();
	await flush();
	const codes = ports.length ? await end(ports) : [];
	await flush();
	return { titles, codes, ports: ports.map(p => p.name),
		logs: logs.filter(l => l[0] !== "debug").map(l => [l[0], ...l[1].map(a => a instanceof Object && a.message !== undefined ? String(a.message) : a)]) };
}

process.on("unhandledRejection", () => {});
(async () => {
	for await (const line of readline.createInterface({ input: process.stdin })) {
		const c = JSON.parse(line);
		let r;
		try {
			r = await { model, real, menu }[c.kind](c);
		} catch (e) {
			r = { fatal: String(e && e.stack || e) };
		}
		process.stdout.write(JSON.stringify(r) + "\n");
	}
})();
