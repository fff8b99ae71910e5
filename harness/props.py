PROPS = {}


def prop(id, **kw):
    PROPS[id] = kw


NUM = "IEEE-754 doubles in the specification (Java overrides of RealArith); clauses hold up to stated tolerances"

prop("C01", driver="c01.py", trace="TraceC01", assumptions=[NUM],
     mc=[dict(module="FitMC", quick="FitMC_quick.cfg", thorough="FitMC_thorough.cfg")])

prop("C02", driver="c02.py", trace="TraceC02", assumptions=[NUM],
     mc=[dict(module="FrameMC", quick="FrameMC_quick.cfg", thorough="FrameMC_thorough.cfg")])

prop("C03", driver="c03.py", trace="TraceC03", assumptions=[NUM],
     mc=[dict(module="StrikeDipMC", quick="StrikeDipMC_quick.cfg", thorough="StrikeDipMC_thorough.cfg")])

prop("C04", driver="c04.py", trace="TraceC04", assumptions=[NUM],
     mc=[dict(module="ErrorMC", quick="ErrorMC_quick.cfg", thorough="ErrorMC_thorough.cfg")])

prop("C05", driver="c05.py", trace="TraceC05", assumptions=[NUM],
     mc=[dict(module="SavedMC", quick="SavedMC_quick.cfg", thorough="SavedMC_thorough.cfg")])

prop("C06", driver="c06.py", trace="TraceC06", assumptions=[NUM],
     mc=[dict(module="ReconMC", quick="ReconMC_quick.cfg", thorough="ReconMC_thorough.cfg")])

for _p in ("C08", "C09"):
    prop(_p, driver="registry.py", trace="TraceRegistry", trace_cfg="Trace%s.cfg" % _p,
         mc=[dict(module="RegistryMC", quick="RegistryMC_quick.cfg", thorough="RegistryMC_thorough.cfg")])

prop("C07", driver="c07.py", trace="TraceC07",
     mc=[dict(module="QueryMC", quick="QueryMC_quick.cfg", thorough="QueryMC_thorough.cfg")])

prop("C10", driver="c10.py", trace="TraceC10", assumptions=[NUM],
     mc=[dict(module="GroupFitMC", quick="GroupFitMC_quick.cfg", thorough="GroupFitMC_thorough.cfg")])

prop("C11", driver="c11.py", trace="TraceC11",
     mc=[dict(module="UidMC", quick="UidMC_quick.cfg", thorough="UidMC_thorough.cfg")])

prop("C12", driver="c12.py", trace="TraceC12",
     mc=[dict(module="MappingMC", quick="MappingMC_quick.cfg", thorough="MappingMC_thorough.cfg")])

prop("C13", driver="c13.py", trace="TraceC13",
     mc=[dict(module="EmbedMC", quick="EmbedMC_quick.cfg", thorough="EmbedMC_thorough.cfg")])

for _p in ("C14", "C15"):
    prop(_p, driver="girdle.py", trace="Trace" + _p, env={"VERIF_WHICH": _p}, assumptions=[NUM],
         mc=[dict(module="GirdleMC", quick="GirdleMC_quick.cfg", thorough="GirdleMC_thorough.cfg")])

prop("C16", driver="c16.py", trace="TraceC16", assumptions=[NUM],
     mc=[dict(module="HyperMC", quick="HyperMC_quick.cfg", thorough="HyperMC_thorough.cfg")])

prop("C17", driver="c17.py", trace="TraceC17", assumptions=[NUM],
     mc=[dict(module="ConicMC", quick="ConicMC_quick.cfg", thorough="ConicMC_thorough.cfg")])

prop("C18", driver="c18.py", trace="TraceC18", assumptions=[NUM],
     mc=[dict(module="RegressMC", quick="RegressMC_quick.cfg", thorough="RegressMC_thorough.cfg")])

prop("C19", driver="c19.py", trace="TraceC19", assumptions=[NUM],
     mc=[dict(module="RotMC", quick="RotMC_quick.cfg", thorough="RotMC_thorough.cfg")])

prop("C20", driver="c20.py", trace="TraceC20", assumptions=[NUM, "rasterio and GDAL read in-memory GeoTIFFs faithfully; pixels whose centre lies on the outline of an area may go either way"],
     mc=[dict(module="DemMC", quick="DemMC_quick.cfg", thorough="DemMC_thorough.cfg")])

prop("C21", driver="c21.py", trace="TraceC21", assumptions=[NUM, "the vendored d3 4.12 decides containment on the sphere", "the modules versor and matrix, which reconstruct.ts imports and the repository does not have, are replaced by unit quaternions whose matrix rows are the rotated axes"],
     mc=[dict(module="ConeMC", quick="ConeMC_quick.cfg", thorough="ConeMC_thorough.cfg")])

prop("C22", driver="c22.py", trace="TraceC22", assumptions=[NUM, "React, its DOM and the quaternion package are replaced by small stand-ins; d3 and mathjs are the vendored ones"],
     mc=[dict(module="ProfileMC", quick="ProfileMC_quick.cfg", thorough="ProfileMC_thorough.cfg")])

prop("C23", driver="c23.py", trace="TraceC23", assumptions=["React, its widgets and the DOM are replaced by small stand-ins; d3 and mathjs are the vendored ones"],
     mc=[dict(module="PageMC", quick="PageMC_quick.cfg", thorough="PageMC_thorough.cfg")])

prop("C24", driver="c24.py", trace="TraceC24", assumptions=[NUM, "the DOM is replaced by a small stand-in; d3 is the vendored one"],
     mc=[dict(module="NetMC", quick="NetMC_quick.cfg", thorough="NetMC_thorough.cfg")])

prop("C25", driver="c25.py", trace="TraceC25", assumptions=["React, its widgets, the stored state and the packages chroma-js, immutability-helper and attitude are replaced by small stand-ins"],
     mc=[dict(module="SheetMC", quick="SheetMC_quick.cfg", thorough="SheetMC_thorough.cfg")])

prop("C26", driver="c26.py", trace="TraceC26", assumptions=[NUM, "figures are read back from matplotlib's artists"],
     mc=[dict(module="QuadricMC", quick="QuadricMC_quick.cfg", thorough="QuadricMC_thorough.cfg")])
