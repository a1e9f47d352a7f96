# Library modules (sources are globbed in /repo) and checks.
def _m(src, deps=(), inc=(), skip=()): return dict(src=src, deps=list(deps), inc=list(inc), skip=tuple(skip))
MODULES = {
 "base": _m(["lib/lf/base/*.cc"], skip=("lehrfem_info.cc",)),
 "geometry": _m(["lib/lf/geometry/*.cc"], ["base"]),
 "mesh": _m(["lib/lf/mesh/*.cc"], ["geometry"]),
 "hybrid2d": _m(["lib/lf/mesh/hybrid2d/*.cc"], ["mesh"]),
 "utils": _m(["lib/lf/mesh/utils/*.cc"], ["mesh"]),
 "refinement": _m(["lib/lf/refinement/*.cc"], ["hybrid2d", "utils", "iolight"]),
 "iolight": _m(["lib/lf/io/write_*.cc"], ["utils"]),
 "quad": _m(["lib/lf/quad/*.cc"], ["base"]),
 "assemble": _m(["lib/lf/assemble/*.cc"], ["mesh"]),
 "fe": _m(["lib/lf/fe/*.cc"], ["assemble", "quad", "utils", "refinement"]),
 "uscalfe": _m(["lib/lf/uscalfe/*.cc"], ["fe"]),
 "io": _m(["lib/lf/io/*.cc"], ["hybrid2d", "utils"]),
 "dpg": _m(["projects/dpg/*.cc"], ["uscalfe", "hybrid2d"], ["projects/dpg"]),
 "ipdg": _m(["projects/ipdg_stokes/assemble/*.cc", "projects/ipdg_stokes/mesh/*.cc", "projects/ipdg_stokes/post_processing/*.cc"],
            ["uscalfe", "hybrid2d"], ["projects/ipdg_stokes/assemble", "projects/ipdg_stokes/mesh", "projects/ipdg_stokes/post_processing"]),
 "fisher": _m(["projects/fisher_kpp/strangsplitting.cc"], ["uscalfe", "hybrid2d"], ["projects/fisher_kpp"]),
}
CHECKS = {}
TECH = {}
def check(pid, files, modules, **kw): CHECKS[pid] = dict(files=files, modules=modules, **kw)

check("C01", ["c01.cc"], ["geometry"], args=["--scale", "12"])
check("C02", ["c02.cc"], ["geometry", "refinement"], args=["--scale", "8"])
check("C07", ["c07.cc"], ["geometry", "refinement"], args=["--scale", "20"])
check("C03", ["c03.cc"], ["hybrid2d"], args=["--scale", "8"])
check("C04", ["c04.cc"], ["hybrid2d", "utils", "ipdg"], args=["--scale", "4"])
check("C05", ["c05.cc"], ["hybrid2d", "utils", "refinement"], args=["--scale", "4"])
check("C06", ["c06.cc"], ["hybrid2d", "utils"], args=["--scale", "4"])
check("C08", ["c08.cc"], ["refinement"], args=["--scale", "4"])
check("C09", ["c09.cc"], ["refinement"], args=["--scale", "6"])
check("C10", ["c10.cc"], ["refinement","fe","uscalfe"], args=["--scale", "3"])
check("C11", ["c11.cc"], ["hybrid2d", "assemble"], args=["--scale", "40"])
check("C12", ["c12.cc"], ["hybrid2d", "assemble"], args=["--scale", "40"])
check("C13", ["c13.cc"], ["assemble"], args=["--scale", "30"])
check("C14", ["c14.cc"], ["quad"], args=["--scale", "10"])
check("C15", ["c15.cc"], ["hybrid2d","uscalfe"], args=["--scale", "300"])
check("C16", ["c16.cc"], ["hybrid2d","fe"], args=["--scale", "600"])
check("C17", ["c17.cc"], ["fe","uscalfe","refinement"], args=["--scale", "150"])
check("C18", ["c18.cc"], ["fe","uscalfe"], args=["--scale", "10"])
check("C19", ["c19.cc"], ["fe","uscalfe"], args=["--scale", "60"])
check("C20", ["c20.cc"], ["fe","uscalfe","assemble"], args=["--scale", "300"])
check("C21", ["c21.cc"], ["fe","uscalfe"], args=["--scale", "200"])
check("C22", ["c22.cc"], ["io"], args=["--scale", "300"])
check("C23", ["c23.cc"], ["io"], args=["--scale", "500"])
check("C26", ["c26.cc"], ["io"], args=["--scale", "50"], san="-fsanitize=address,bounds,null,bool,return,unreachable -fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR", ldflags="-Wl,--wrap=_ZN2lf4base15AssertionFailedERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_lS8_")
check("C24", ["c24.cc"], ["io"], args=["--scale", "400"])
check("C25", ["c25.cc"], ["io","refinement"], args=["--scale", "200"])
check("C27", ["c27.cc"], ["fe","uscalfe"], args=["--scale", "250"])
check("C28", ["c28.cc"], ["fe","uscalfe","dpg"], args=["--scale", "120"])
check("C29", ["c29.cc"], ["fe","uscalfe","ipdg"], args=["--scale", "150"])
check("C30", ["c30.cc"], ["base"], args=["--scale", "20"])
check("C31", ["c31.cc"], ["fe","uscalfe","io","refinement"], args=["--scale", "80"])
check("C32", ["c32.cc"], ["fe","uscalfe","fisher"], args=["--scale", "200"])
check("C33", ["c33.cc"], ["refinement"], args=["--scale", "60"])
check("C34", ["c34.cc"], ["fe","uscalfe","refinement"], args=["--scale", "6"])
check("C35", ["c35.cc"], ["base"])
check("C36", ["c36.cc"], ["fe","uscalfe","io","refinement"], args=["--scale", "5"], san="-fsanitize=address -fno-sanitize-recover=all")
