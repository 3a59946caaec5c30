"""Property-specific analyses beyond the reference comparison."""

EXTRA = {}
EXPLAIN = {"*": "Abstract interpretation of every listed function on /repo's current sources: each observable effect (member, output argument, return value, "
           "call to an effectful API) is brought to a canonical normal form (polynomials over entry values, quantified array updates, sums and folds for loops) "
           "and must equal the reviewed reference formula stored in /verif/spec."}


def synchronisation(ctx):
    """C05: accesses to shared state by different threads are separated by barriers or protected alike."""
    import cxx
    import sync
    bad, n, samples = sync.check(ctx.prog)
    if n["vanished"] > n["in_reference"] // 2:
        raise cxx.AnalysisBroken("most of the functions that threads execute are gone")
    ctx.cov["team_functions"] = n["functions"]
    ctx.cov["shared_accesses"] = n["accesses"]
    ctx.cov["conflicting_pairs_without_barrier"] = n["pairs"]
    ctx.cov["team_functions_not_in_reference"] = n["not_in_reference"]
    ctx.cov["parallel_regions"] = n["regions"]
    for s in samples:
        ctx.sample(s)
    for k, p, sites in bad:
        f, _, l = sites[0].rpartition(":")
        ctx.violation("%s:%s:%s" % (k, p[0], sync.show(p)), f, int(l), "%s: %s: %s not separated by a barrier (%s and %s)" % (k, p[0], sync.show(p), sites[0], sites[1]))
    ctx.assumptions += [
        "the conflicting pairs of the reference are benign: the accesses are to the thread's own radial or tangential range, or made by the one thread that owns the boundary or axis",
        "members of the per-thread objects (model, profiles, geometry, forces of one thread) are only used by that thread inside a parallel region",
        "locks other than OpenMP constructs are not interpreted",
    ]


EXTRA["C05"] = [synchronisation]
EXPLAIN["C05"] = ("Effect analysis over the call graph of every OpenMP parallel region: for each function the accesses to shared state before its first and after its last barrier, "
                  "composed over sequences, branches, loops and calls (arguments that refer to shared state are followed into the callee), give all pairs of conflicting accesses "
                  "between which some path has no barrier, with the construct that protects each side; a pair not in the reviewed reference, or a barrier under a condition that "
                  "differs between threads, is a violation.")


def registered(select):
    def run(ctx):
        """Names the extension module registers are bound to what the reference says."""
        import bindings
        bad, und, n = bindings.check(ctx.prog, select)
        ctx.cov["binding_registrations"] = n
        ctx.undecided += und
        ctx.sample("%d registrations of the extension module compared by class, name, bound member, access, argument names and defaults" % n)
        for k, f, l, what in bad:
            ctx.violation("binding:" + k, f, l, what)
    return run


EXTRA["C27"] = [registered(None)]
EXTRA["C03"] = [registered(r"^(WOutFileContents|JxBOut|Mercier|Threed1|OutputQuantities)")]
EXTRA["C04"] = [registered(r"^VmecINDATA")]
EXTRA["C02"] = [registered(r"^OutputQuantities")]
EXTRA["C12"] = [registered(r"^(Makegrid|MagneticField|MagneticConf)|^module\.compute")]
EXTRA["C14"] = [registered(r"^(FreeBoundaryMethod|OutputMode|IterationStyle|MultigridInterpolationScheme)")]
EXTRA["C16"] = [registered(r"^VmecModel")]
EXTRA["C18"] = [registered(r"^module\.run|^OutputMode")]
EXTRA["C19"] = [registered(r"^HotRestartState|^VmecModel\.(create|refine|reinit)")]


def own_views(ctx):
    """Views held by coefficient objects refer to the object's own arrays after construction, copy and move."""
    import views
    bad, und, n = views.check(ctx.prog)
    ctx.cov["view_bindings"] = n
    ctx.undecided += und
    for k, f, l, what in bad:
        ctx.violation("view:" + k, f, l, what)


for _p in ("C07", "C19", "C22", "C27"):
    EXTRA.setdefault(_p, []).append(own_views)
