// The bytes of given chunks. The module `jobs` is generated: points recorded from runs of the real code, or chosen by
// the checks; each point is one number, least significant byte first.
module chunktrace {
  import coder.* from "./coder"
  import fields.* from "./fields"
  import chunk.* from "./chunk"
  import jobs.* from "./jobs"

  pure def points(k: int): List[Bytes] = jobs[k].pts.foldl([], (a, p) => a.append(le(pointSize(layoutOf(k)), p)))
  pure def layoutOf(k: int): Layout = { fmt: jobs[k].fmt, ver: jobs[k].ver, eb: jobs[k].eb }
  pure def bytesOfJob(k: int): List[Part] = encode(layoutOf(k), points(k))

  var job: int
  var out: List[Part]
  action init = all { job' = 0, out' = bytesOfJob(0) }
  action step = all { job < jobs.length() - 1, job' = job + 1, out' = bytesOfJob(job + 1) }
}
