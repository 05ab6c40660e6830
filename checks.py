CB = ["recursiveCallback.hpp", "callback.hpp", "connection.hpp"]
BOTH = ["san", "fast"]


def mcheck(src, headers, **kw):
    return dict({"src": src, "headers": headers, "level": "model_checking", "modes": BOTH}, **kw)


CHECKS = {
    "C01": mcheck("C01.cpp", CB),
    "C02": mcheck("C02.cpp", CB),
    "C03": mcheck("C03.cpp", CB),
    "C04": mcheck("C04.cpp", CB),
    "C05": mcheck("C05.cpp", CB),
    "C06": dict(mcheck("C06.cpp", CB), level="fault_enumeration"),
    "C07": mcheck("C07.cpp", CB),
    "C08": mcheck("C08.cpp", CB),
    "C09": mcheck("C09.cpp", CB),
    "C10": mcheck("C10.cpp", CB),
    "C11": mcheck("C11.cpp", ["scope.hpp"]),
    "C12": mcheck("C12.cpp", ["span.hpp"]),
}


def explore(src, headers, **kw):
    return dict({"src": src, "headers": headers, "level": "exploration", "modes": BOTH}, **kw)


CHECKS.update({
    "C13": mcheck("C13.cpp", ["bytes.hpp"]),
    "C14": mcheck("C14.cpp", ["bytes.hpp"]),
    "C15": explore("C15.cpp", ["utf.hpp"]),
    "C16": explore("C16.cpp", ["utf.hpp"]),
    "C17": explore("C17.cpp", ["stringParam.hpp"]),
    "C18": explore("C18.cpp", ["flags.hpp"]),
})
CHECKS.update({
    "C19": mcheck("C19.cpp", ["clone.hpp"]),
    "C20": explore("C20.cpp", ["vec.hpp", "vecOps.hpp"], parts=3),
    "C21": explore("C21.cpp", ["vec.hpp", "vecOps.hpp"]),
    "C22": explore("C22.cpp", ["vec.hpp", "vecOps.hpp"], parts=3),
    "C23": explore("C23.cpp", ["mat.hpp", "matOps.hpp"], parts=4),
    "C24": explore("C24.cpp", ["mat.hpp", "matOps.hpp"]),
    "C25": explore("C25.cpp", ["mat.hpp", "matOps.hpp"]),
    "C26": explore("C26.cpp", ["mat.hpp", "matOps.hpp"]),
    "C27": explore("C27.cpp", ["rect.hpp", "rectOps.hpp"]),
    "C28": explore("C28.cpp", ["rect.hpp", "rectOps.hpp"]),
    "C29": explore("C29.cpp", ["math.hpp"]),
    "C30": explore("C30.cpp", ["math.hpp"]),
    "C31": explore("C31.cpp", ["approx.hpp", "approxVec.hpp"]),
    "C32": explore("C32.cpp", ["quaternion.hpp"]),
    "C33": explore("C33.cpp", ["quaternion.hpp"]),
    "C34": explore("C34.cpp", ["quaternion.hpp"]),
    "C35": explore("C35.cpp", ["transform.hpp"]),
    "C36": explore("C36.cpp", ["transform.hpp"]),
    "C37": explore("C37.cpp", ["transform.hpp"]),
    "C38": explore("C38.cpp", ["vec.hpp", "mat.hpp", "rect.hpp", "simplex.hpp"], parts=4),
    "C39": explore("C39.cpp", ["vecOps.hpp", "matOps.hpp", "rectOps.hpp", "approxVec.hpp"]),
    "C40": explore("C40.cpp", ["functionTraits.hpp", "tmpUtil.hpp"], modes=["fast"]),
    "C41": explore("C41.cpp", ["nonCopyable.hpp", "callback.hpp", "recursiveCallback.hpp", "scope.hpp"]),
    "C42": mcheck("C42.cpp", ["vec.hpp", "mat.hpp"]),
})
CHECKS["C43"] = {"module": "harness.headers.check", "level": "exploration",
                 "assumptions": ["the use of each header is represented by one probe of its main entities"]}
CHECKS["C44"] = {"module": "harness.misuse.check", "level": "exploration",
                 "assumptions": ["compiled by g++ 13.3, without running"]}
