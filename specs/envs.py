from pv.loader import Env


def make(name, repo):
    if name == "plain":
        from pv import npshim
        return Env(repo, {"numpy": npshim.make()})
    if name == "process":
        from pv import npshim, mjstub, merge
        st = {"numpy": npshim.make()}
        st.update(mjstub.make())
        e = Env(repo, st, loop_hooks=lambda n, t, p: merge.rewrite(n, t))
        e.builtins.update(merge.shims(e.builtins))
        return e
    if name == "agari":
        from pv import npshim, mjstub, merge, runs
        st = {"numpy": npshim.make()}
        st.update(mjstub.make())
        e = Env(repo, st, loop_hooks=lambda n, t, p: runs.rewrite(merge.rewrite(n, t)))
        e.builtins.update(merge.shims(e.builtins))
        e.builtins.update(runs.shims(e.builtins))
        return e
    if name == "agents":
        from pv import npshim, torchshim
        st = {"numpy": npshim.make()}
        st.update(torchshim.make())
        return Env(repo, st)
    if name == "rows":
        from pv import npshim, torchshim, glist
        st = {"numpy": npshim.make()}
        st.update(torchshim.make())
        e = Env(repo, st, loop_hooks=glist.rewrite)
        e.builtins.update(glist.shims(e.builtins))
        return e
    if name == "files":
        from pv import npshim, torchshim, mjstub, symstr, osshim, comp
        st = {"numpy": npshim.make()}
        st.update(torchshim.make())
        st.update(mjstub.make())
        st["re"] = symstr.re_module()
        st.update(osshim.make())
        e = Env(repo, st, loop_hooks=comp.rewrite)
        e.builtins.update(comp.shims())
        e.builtins["open"] = osshim.open_
        return e
    raise KeyError(name)
