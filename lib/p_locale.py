"""C37: the program's locale."""
import os, subprocess
import fw
from p_dom import REG, prop
LOCALES = {"de_DE": "ISO-8859-1", "tr_TR": "ISO-8859-9"}
@prop("C37")
def c37(ctx):
    loc = os.path.join(ctx.dir, "locales"); os.makedirs(loc)
    for n, cs in LOCALES.items():
        p = subprocess.run(["localedef", "-c", "-i", n, "-f", cs, os.path.join(loc, n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.isdir(os.path.join(loc, n)): raise fw.CheckError("localedef %s: %s" % (n, p.stdout))
    import props_impl
    for n, ids, scale in (("de_DE", ("C01", "C06", "C22", "C27", "C28", "C29", "C31", "C32", "C20", "C23", "C19"), .25), ("tr_TR", ("C01", "C22", "C30", "C33"), .15)):
        ctx.env = {"LOCPATH": loc, "LC_ALL": "C", "VERIF_LOCALE": n}; ctx.scale = scale
        for i in ids:
            ctx.log("under", n, "as", i); REG[i](ctx)
    ctx.env = {}; ctx.scale = None
    return ctx.finish("scenarios of other properties (documents, coordinates, fields, CSV, dates, attributes, colours, builders, extents, regions, entities, feeds, track points) driven with the program's C and C++ locale set to German (decimal comma, grouping) or Turkish (dotless i), judged by the same specifications; non-trivial = distinct scenario", ["the locales are compiled with localedef from the installed sources", "C++ streams and C functions follow the global locale of the process"])
