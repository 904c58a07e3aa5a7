"""What is evaluated by the Lua interpreter: a script is compiled or it is an error, run it gives a value of what it says or an error."""
from interp import K, S, ok, err, UNIT, some
import models as md
from models import M, ret, strval, one
import strmodels
from sermodels import intern

BAD = ("k", "lua-error")
# how the script ends: "uncompiled", "failed", True or False; None: the models of strmodels, which run nothing
ENDS = None


def m(*names):
    def deco(f):
        for n in names:
            old = M.get(n, md.default)
            M[n] = lambda ip, cx, old=old: f(ip, cx) if ENDS is not None else old(ip, cx)
        return f
    return deco


@m("piccolo::lua::Lua::new", "piccolo::lua::Lua::core", "piccolo::lua::Lua::full", "piccolo::lua::Lua::empty")
def l_new(ip, cx):
    return ret(cx, ("k", "lua"))


@m("piccolo::closure::Closure::load", "piccolo::closure::Closure::load_with_env")
def l_load(ip, cx):
    v = strval(cx, cx.args[1])
    return ret(cx, err(BAD) if ENDS == "uncompiled" else ok(intern("lua", v)))


@m("piccolo::thread::thread::Thread::new", "piccolo::thread::Thread::new")
def l_thread(ip, cx):
    return ret(cx, ("k", "lua-thread"))


@m("piccolo::thread::thread::Thread::start", "piccolo::thread::Thread::start")
def l_start(ip, cx):
    cx.st.fr["LUA"] = {0: ip.deref(cx.st, cx.args[2])}
    return ret(cx, ok(UNIT))


@m("piccolo::registry::Registry::stash")
def l_stash(ip, cx):
    return ret(cx, cx.st.fr.get("LUA", {}).get(0) or ("k", "no-script"))


@m("piccolo::lua::Lua::try_run", "piccolo::lua::Lua::run")
def l_try(ip, cx):
    return one(cx, cx.args[1], [("k", "lua-context")], cx.st)


@m("piccolo::lua::Lua::run_thread", "piccolo::lua::Lua::finish_thread")
def l_run(ip, cx):
    v = ip.deref(cx.st, cx.args[1])
    cx.st.fr["LUARUN"] = {0: v}
    return ret(cx, err(BAD) if ENDS == "failed" else ok(K(int(ENDS))))


@m("piccolo::error::StaticError::source", "core::error::Error::source")
def l_source(ip, cx):
    """either kind of error of the interpreter has a source"""
    return ret(cx, some(S("!lua-message")))
