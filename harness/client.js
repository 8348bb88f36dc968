// Conformance harness: runs the extension of /repo with stand-ins for the editor, the language client and processes.
// stdin: JSON lines {ext, events: [...]}; stdout: for each a JSON list of {effects, status}. argv: the compiled extension,
// package.json, scratch directory.
"use strict";
const Module = require("module"), fs = require("fs"), path = require("path"), { EventEmitter } = require("events");
const [, , main, manifest, scratch] = process.argv;
const pkg = JSON.parse(fs.readFileSync(manifest, "utf8"));
const declared = pkg.contributes.configuration.properties;
const KEY = { "ncproj.debug.log.path": "log", "ncproj.ncsetting.file.path": "nc", "ncproj.calculate.pathtime.enable": "pt", "ncproj.macro.descriptions.path": "mac" };
const NAME = Object.fromEntries(Object.entries(KEY).map(([a, b]) => [b, a]));
process.on("unhandledRejection", () => {});
process.on("uncaughtException", (e) => { if (S) S.effects.push({ e: "exception", what: String(e) }); });
console.log = () => {}; console.error = () => {}; console.warn = () => {};
const platform = process.platform;
let S = null; // the script that runs

function reset(ext) {
    S = { ext, user: {}, ws: {}, listeners: [], watchers: [], commands: {}, effects: [], status: null, tools: [], ev: {}, clients: [], mod: null, pending: 0 };
}
const eff = (e) => S.effects.push(e);
const value = (name) => name in S.ws ? S.ws[name] : name in S.user ? S.user[name] : declared[name] ? declared[name].default : undefined;
function setLayer(layer, name, v) {
    const before = JSON.stringify(value(name));
    if (v === undefined || v === "") delete S[layer][name]; else S[layer][name] = v;
    return JSON.stringify(value(name)) !== before;
}
const tick = () => new Promise((r) => setImmediate(r));
async function fire(names) {
    await tick();
    const event = { affectsConfiguration: (s) => names.some((n) => n === s || n.startsWith(s + ".")) };
    for (const l of [...S.listeners]) { try { l(event); } catch (e) { eff({ e: "exception", what: String(e) }); } }
    await tick();
}
const disposable = (f) => ({ dispose: f || (() => {}) });
const typed = (k, v) => (k === "pt" && v !== "" ? v === "true" : v);

async function ask(kind, args) {
    let items = args.slice(1).filter((x) => !(x && typeof x === "object" && ("modal" in x || "detail" in x)));
    const title = (i) => (typeof i === "string" ? i : i.title);
    const pick = (re) => items.find((i) => re.test(title(i)));
    if (!items.length) { eff({ e: "info" }); return undefined; }
    const ev = S.ev;
    if (pick(/reload/i)) { eff({ e: "ask" }); await tick(); return ev.reload ? pick(/reload/i) : undefined; }
    if (pick(/user/i) && pick(/workspace/i)) {
        eff({ e: "which" });
        await tick();
        if (ev.during) { if (setLayer("user", NAME.log, ev.during)) await fire([NAME.log]); }
        return ev.answer === "user" ? pick(/user/i) : ev.answer === "ws" ? pick(/workspace/i) : ev.answer === "no" ? pick(/^no$/i) : undefined;
    }
    if (pick(/create/i) && pick(/select/i)) {
        eff({ e: "first" });
        await tick();
        return ev.first === "create" ? pick(/create/i) : ev.first === "select" ? pick(/select/i) : ev.first === "no" ? pick(/^no$/i) : undefined;
    }
    eff({ e: "question", items: items.map(title) });
    return undefined;
}

function glob(g) {
    return new RegExp("^" + g.replace(/[.+^$()|[\]\\]/g, "\\$&").replace(/\{([^}]*)\}/g, (_, x) => "(" + x.split(",").join("|") + ")")
        .replace(/\*\*\//g, "\u0001").replace(/\*/g, "[^/]*").replace(/\?/g, "[^/]").replace(/\u0001/g, "(.*/)?") + "$");
}
class RelativePattern { constructor(base, pattern) { this.base = typeof base === "string" ? base : base.fsPath || base.uri.fsPath; this.baseUri = Uri.file(this.base); this.pattern = pattern; } }
class Uri {
    constructor(p) { this.path = p; this.scheme = "file"; }
    get fsPath() { return this.path; }
    toString() { return "file://" + this.path; }
    static file(p) { return new Uri(p); }
    static parse(p) { return new Uri(p.replace(/^file:\/\//, "")); }
    static joinPath(u, ...x) { return new Uri(path.join(u.path, ...x)); }
}
function matches(p, file) {
    if (p instanceof RelativePattern) {
        const rel = path.relative(path.normalize(p.base), file);
        return !rel.startsWith("..") && glob(p.pattern).test(rel);
    }
    return glob(String(p)).test(file);
}

const vscode = {
    workspace: {
        getConfiguration(section) {
            const full = (k) => (section ? section + "." + k : k);
            return {
                get(k, d) { const v = value(full(k)); return v === undefined ? d : v; },
                has: (k) => value(full(k)) !== undefined,
                inspect: (k) => ({ key: full(k), defaultValue: declared[full(k)] && declared[full(k)].default, globalValue: S.user[full(k)], workspaceValue: S.ws[full(k)] }),
                async update(k, v, target) {
                    const n = full(k), layer = target === 1 || target === true ? "user" : "ws";
                    eff({ e: "update", k: KEY[n] || n, v: String(v), layer, declared: n in declared });
                    await tick();
                    if (setLayer(layer, n, v)) await fire([n]);
                },
            };
        },
        onDidChangeConfiguration(f, self, bin) { const g = self ? f.bind(self) : f; S.listeners.push(g); const d = disposable(() => (S.listeners = S.listeners.filter((x) => x !== g))); if (bin) bin.push(d); return d; },
        createFileSystemWatcher(pattern, ignoreCreate, ignoreChange, ignoreDelete) {
            const w = { pattern, ignoreCreate, ignoreChange, ignoreDelete, change: [] };
            S.watchers.push(w);
            return { onDidChange: (f) => (w.change.push(f), disposable()), onDidCreate: () => disposable(), onDidDelete: () => disposable(), dispose: () => (S.watchers = S.watchers.filter((x) => x !== w)) };
        },
        async openTextDocument(o) { S.opened = o; return { ...o }; },
        workspaceFolders: undefined,
        fs: { readFile: async (u) => promises.readFile(u.fsPath), stat: async (u) => promises.stat(u.fsPath) },
    },
    window: {
        createOutputChannel() { const c = { text: "" }; return { append: (t) => (c.text += t), appendLine: (t) => (c.text += t), show: () => { if (!c.text) eff({ e: "emptychannel" }); if (!S.effects.some((x) => x.e === "channel")) eff({ e: "channel" }); }, clear: () => (c.text = ""), hide() {}, dispose() {} }; },
        createStatusBarItem() { const it = { text: "", tooltip: "", show() { it.visible = true; }, hide() { it.visible = false; }, dispose() {} }; S.status = it; return it; },
        showWarningMessage: (...a) => ask("warning", a),
        showInformationMessage: (...a) => ask("info", a),
        showErrorMessage: (...a) => ask("error", a),
        async showOpenDialog(o) {
            const all = Object.values((o && o.filters) || {}).flat();
            eff({ e: "dialog", k: all.includes("ncsetting") ? "nc" : all.includes("json") ? "mac" : "?" });
            await tick();
            return S.ev.pick ? [Uri.file(S.ev.pick)] : undefined;
        },
        async showTextDocument(d) {
            let ok = false;
            try { const j = JSON.parse(d.content); ok = Object.entries(j.descriptions).length > 0 && Object.entries(j.descriptions).every(([k, v]) => /^\d+$/.test(k) && Object.values(v).every((x) => typeof x === "string")); } catch (e) { }
            eff({ e: ok ? "document" : "baddocument" });
        },
    },
    commands: {
        registerCommand(n, f) { S.commands[n] = f; return disposable(() => delete S.commands[n]); },
        async executeCommand(n, ...a) {
            if (n === "workbench.action.reloadWindow") { eff({ e: "reload" }); return; }
            if (!S.commands[n]) { eff({ e: "nocommand", n }); return; }
            return S.commands[n](...a);
        },
    },
    RelativePattern, Uri,
    ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
    StatusBarAlignment: { Left: 1, Right: 2 },
};

const OPT = { "--ncsetting-path": "nc", "-n": "nc", "--log-path": "log", "-l": "log", "--calculate-path": "pt", "--macro-desc-path": "mac", "-m": "mac" };
function argsOf(list) {
    const r = {};
    for (let i = 0; i < list.length; ++i) {
        const m = /^(--[^=]+)=(.*)$/s.exec(list[i]);
        if (m) r[OPT[m[1]] || m[1]] = m[2]; else { r[OPT[list[i]] || list[i]] = list[i + 1] === undefined ? "" : String(list[i + 1]); ++i; }
    }
    if (r.pt === "false") delete r.pt; // what the server does without it
    return r;
}
const slash = (p) => p.replace(/[\\/]+/g, "/");
class LanguageClient {
    constructor(...a) {
        this.options = a.find((x) => x && typeof x === "object" && ("command" in x || "run" in x));
        if (this.options && this.options.run) this.options = this.options.run;
        this.client = a[a.indexOf(a.find((x) => x && typeof x === "object")) + 1];
        this.state = 1; S.clients.push(this);
    }
    onDidChangeState(f) { this.f = f; return disposable(); }
    onReady() { return this.start(); }
    async start() {
        const o = this.options, e = { e: "start", args: argsOf(o.args || []) };
        const want = slash(S.ext + "/vscode-client/out/nclangsrv" + (process.platform === "win32" ? ".exe" : ""));
        if (slash(o.command) !== want) e.command = o.command;
        if (o.options && o.options.cwd && slash(o.options.cwd + "/") !== slash(S.ext + "/vscode-client/out/")) e.cwd = o.options.cwd;
        const sel = JSON.stringify((this.client && this.client.documentSelector) || null);
        if (!sel.includes('"ncproj"')) e.selector = sel;
        e.raw = o.args || [];
        eff(e); this.state = 2;
        await tick();
        if (S.ev.op === "activate" && S.ev.ok === false) throw new Error("does not start");
    }
    async stop() { if (this.state === 2) eff({ e: "stop" }); this.state = 1; await tick(); }
    async restart() { await this.stop(); await this.start(); }
    isRunning() { return this.state === 2; }
    needsStart() { return this.state !== 2; }
    needsStop() { return this.state === 2; }
    dispose() { return this.stop(); }
    sendNotification() {} sendRequest() { return Promise.resolve(); } onNotification() {} onRequest() {}
}
function program(p, how, end) {
    const want = slash(S.ext + "/vscode-client/out/cmtconfig" + (process.platform === "win32" ? ".exe" : ""));
    const e = { e: "exec" };
    if (slash(p) !== want) e.program = p;
    eff(e);
    S.tools.push(end);
}
const command = (c) => { const m = /^\s*"([^"]*)"/.exec(c); return m ? m[1] : c.trim().split(/\s+/)[0]; };
function child() { const c = new EventEmitter(); c.stdout = new EventEmitter(); c.stderr = new EventEmitter(); c.unref = () => {}; c.kill = () => {}; return c; }
const cp = {
    exec(cmd, ...r) { const cb = r.find((x) => typeof x === "function"), c = child(); program(command(cmd), "exec", (ok) => { const e = ok ? null : new Error("failed"); if (cb) cb(e, "", ""); c.emit("exit", ok ? 0 : 1); c.emit("close", ok ? 0 : 1); }); return c; },
    execFile(file, ...r) { const cb = r.find((x) => typeof x === "function"), c = child(); program(file, "execFile", (ok) => { const e = ok ? null : new Error("failed"); if (cb) cb(e, "", ""); c.emit("exit", ok ? 0 : 1); c.emit("close", ok ? 0 : 1); }); return c; },
    spawn(file, a, o) { const c = child(), sh = (o && o.shell) || (a && a.shell); program(sh ? command(file) : file, "spawn", (ok) => { c.emit("exit", ok ? 0 : 1); c.emit("close", ok ? 0 : 1); }); return c; },
};
const languageclient = { LanguageClient, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, State: { Stopped: 1, Running: 2, Starting: 3 }, RevealOutputChannelOn: { Never: 4 } };
// files which are being read
let reading = 0;
const counted = (f) => function (...a) {
    const last = a[a.length - 1];
    if (typeof last === "function") { ++reading; a[a.length - 1] = (...x) => { --reading; return last(...x); }; return f.apply(this, a); }
    const r = f.apply(this, a);
    if (r && typeof r.then === "function") { ++reading; r.then(() => --reading, () => --reading); }
    return r;
};
const wrapped = (o, names) => new Proxy(o, { get: (t, k) => (k === "promises" ? promises : names.includes(k) ? counted(t[k].bind(t)) : t[k]) });
const promises = wrapped(fs.promises, ["readFile", "stat", "access", "open", "readdir", "realpath", "lstat"]);
const files = wrapped(fs, ["readFile", "stat", "access", "readdir", "realpath", "lstat"]);
const load = Module._load;
Module._load = function (name, ...a) {
    if (name === "vscode") return vscode;
    if (name === "vscode-languageclient" || name === "vscode-languageclient/node") return languageclient;
    if (name === "fs" || name === "node:fs") return files;
    if (name === "fs/promises" || name === "node:fs/promises") return promises;
    if (name === "child_process" || name === "node:child_process") return cp;
    return load.call(this, name, ...a);
};

async function quiet() {
    for (let calm = 0; calm < 4;) {
        const n = S.effects.length, t = S.status && S.status.text;
        await tick(); await tick();
        const busy = reading > 0 || process.getActiveResourcesInfo().some((x) => /^FS/.test(x));
        calm = !busy && n === S.effects.length && t === (S.status && S.status.text) ? calm + 1 : 0;
    }
}
async function act(ev, files) {
    S.ev = ev; S.effects = [];
    switch (ev.op) {
        case "activate": {
            Object.defineProperty(process, "platform", { value: ev.plat });
            for (const k of Object.keys(require.cache)) if (k.startsWith(path.dirname(main))) delete require.cache[k];
            S.mod = require(main);
            S.context = { extensionPath: S.ext, extensionUri: Uri.file(S.ext), subscriptions: [], asAbsolutePath: (p) => path.join(S.ext, p), globalState: { get() {}, update() {} }, workspaceState: { get() {}, update() {} } };
            await S.mod.activate(S.context);
            break;
        }
        case "deactivate":
            await S.mod.deactivate();
            for (const d of S.context.subscriptions) d.dispose();
            S.listeners = []; S.watchers = []; S.tools = []; S.commands = {}; S.status = null;
            break;
        case "content":
            for (const f of files) { if (ev.text === null) fs.rmSync(f, { force: true }); else fs.writeFileSync(f, ev.text); }
            break;
        case "change": if (setLayer(ev.layer, NAME[ev.k], typed(ev.k, ev.v))) await fire([NAME[ev.k]]); break;
        case "edit": {
            const before = {};
            for (const x of ev.sets) before[NAME[x.k]] ??= JSON.stringify(value(NAME[x.k]));
            for (const x of ev.sets) setLayer(x.layer, NAME[x.k], typed(x.k, x.v));
            const names = Object.keys(before).filter((n) => JSON.stringify(value(n)) !== before[n]);
            if (names.length) await fire(names);
            break;
        }
        case "other": await fire(["editor.fontSize", "ncprojects.debug.log.path"]); break;
        case "select": vscode.commands.executeCommand(ev.what === "nc" ? "ncproj.ncsettingSelect" : "ncproj.macroDescriptionsSelect"); break;
        case "toggle": vscode.commands.executeCommand("ncproj.togglePathTimeCalculation"); break;
        case "create": vscode.commands.executeCommand("ncproj.ncsettingCreate"); break;
        case "placeholder": vscode.commands.executeCommand("ncproj.macroDescriptionsPlaceholder"); break;
        case "toolend": for (const t of S.tools.splice(0)) t(ev.ok); break;
        case "written":
            for (const w of [...S.watchers]) if (!w.ignoreChange && matches(w.pattern, ev.path)) for (const f of w.change) f(Uri.file(ev.path));
            break;
    }
    await quiet();
    return { effects: S.effects, status: S.status && S.status.visible ? S.status.text : "" };
}
(async () => {
    const lines = fs.readFileSync(0, "utf8").split("\n").filter((x) => x);
    for (const l of lines) {
        const s = JSON.parse(l);
        for (const f of s.files) fs.mkdirSync(path.dirname(f), { recursive: true });
        reset(s.ext);
        const out = [];
        for (const ev of s.events) {
            try { out.push(await act(ev, s.files)); } catch (e) { out.push({ effects: S.effects.concat([{ e: "exception", what: String(e) }]), status: "" }); }
        }
        if (S.context) out.push({ commands: Object.keys(S.commands) });
        process.stdout.write(JSON.stringify(out) + "\n");
        Object.defineProperty(process, "platform", { value: platform });
    }
})();
