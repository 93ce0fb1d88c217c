// Local cache of pre-trained models.  Processes load models by URL; every model
// consists of two files that are fetched when they are not in the cache.
// Downloads can be cut short, refused or interrupted by the death of the process.
module cache {
  const PROCS: Set[int]
  const URLS: Set[int]
  const CHUNKS: int                        // pieces a file arrives in
  const MAXLOADS: int
  pure val FILES = 2

  type Proc = { pc: str, url: int, file: int, got: int, since: int }
  // what became of a load: "ok" returns the model of its URL, "failed" raises, "killed" the process died
  type Load = { proc: int, url: int, outcome: str, requests: int, since: int }   // since: loads that had ended when this one began

  var procs: int -> Proc
  var cached: (int, int) -> bool           // (url, file): complete in the cache
  var reqs: int -> int                     // requests of the load under way
  var loads: List[Load]
  var started: int
  var who: int                             // process of the last step, for the replay
  var serverUp: bool

  pure val idle: Proc = { pc: "idle", url: 0, file: 0, got: 0, since: 0 }

  action init = all {
    procs' = PROCS.mapBy(_ => idle),
    cached' = tuples(URLS, 0.to(FILES - 1)).mapBy(_ => false),
    reqs' = PROCS.mapBy(_ => 0),
    loads' = [], started' = 0, who' = 0, serverUp' = true,
  }

  action goto(p: int, s: Proc): bool = procs' = procs.set(p, s)
  action keepCache: bool = cached' = cached

  action ended(p: int, outcome: str): bool = all {
    goto(p, idle),
    loads' = loads.append({ proc: p, url: procs.get(p).url, outcome: outcome, requests: reqs.get(p), since: procs.get(p).since }),
    reqs' = reqs.set(p, 0),
    started' = started, who' = p, serverUp' = serverUp,
  }

  action begin(p: int): bool = all {
    procs.get(p).pc == "idle",
    started < MAXLOADS,
    nondet u = URLS.oneOf()
    goto(p, { pc: "look", url: u, file: 0, got: 0, since: loads.length() }),
    keepCache, loads' = loads, reqs' = reqs, started' = started + 1, who' = p, serverUp' = serverUp,
  }

  // a file found in the cache is used as it is
  action hit(p: int): bool = {
    val s = procs.get(p)
    all {
      s.pc == "look", s.file < FILES,
      cached.get((s.url, s.file)),
      goto(p, s.with("file", s.file + 1)),
      keepCache, loads' = loads, reqs' = reqs, started' = started, who' = p, serverUp' = serverUp,
    }
  }

  action request(p: int): bool = {
    val s = procs.get(p)
    all {
      s.pc == "look", s.file < FILES, serverUp,
      not(cached.get((s.url, s.file))),
      goto(p, { ...s, pc: "fetch", got: 0 }),
      reqs' = reqs.set(p, reqs.get(p) + 1),
      keepCache, loads' = loads, started' = started, who' = p, serverUp' = serverUp,
    }
  }

  action unreachable(p: int): bool = {
    val s = procs.get(p)
    all {
      s.pc == "look", s.file < FILES, not(serverUp),
      not(cached.get((s.url, s.file))),
      ended(p, "failed"), keepCache,
    }
  }

  action chunk(p: int): bool = {
    val s = procs.get(p)
    all {
      s.pc == "fetch", s.got < CHUNKS - 1,
      goto(p, s.with("got", s.got + 1)),
      keepCache, loads' = loads, reqs' = reqs, started' = started, who' = p, serverUp' = serverUp,
    }
  }

  // the last piece arrives: the file becomes visible in one step
  action publish(p: int): bool = {
    val s = procs.get(p)
    all {
      s.pc == "fetch", s.got == CHUNKS - 1,
      goto(p, { ...s, pc: "look", file: s.file + 1, got: 0 }),
      cached' = cached.set((s.url, s.file), true),
      loads' = loads, reqs' = reqs, started' = started, who' = p, serverUp' = serverUp,
    }
  }

  action finish(p: int): bool = {
    val s = procs.get(p)
    all { s.pc == "look", s.file == FILES, ended(p, "ok"), keepCache }
  }

  // the connection is closed before the last piece, the server answers with an error, the process dies
  action cut(p: int): bool = all { procs.get(p).pc == "fetch", ended(p, "failed"), keepCache }
  action refuse(p: int): bool = all { procs.get(p).pc == "fetch", procs.get(p).got == 0, ended(p, "failed"), keepCache }
  action kill(p: int): bool = all { procs.get(p).pc == "fetch", ended(p, "killed"), keepCache }

  action outage = all {
    PROCS.forall(p => procs.get(p).pc == "idle"),
    serverUp' = not(serverUp),
    procs' = procs, cached' = cached, reqs' = reqs, loads' = loads, started' = started, who' = who,
  }

  action step = {
    nondet p = PROCS.oneOf()
    any { begin(p), hit(p), request(p), unreachable(p), chunk(p), publish(p), finish(p), cut(p), refuse(p), kill(p), outage }
  }

  // A scheduler that controls the network and the processes' lives, but not what a process does between two
  // messages: it runs until it waits for the server.  Its behaviours are behaviours of step.
  action driven = {
    nondet p = PROCS.oneOf()
    nondet luck = 0.to(11).oneOf()
    val busy = PROCS.filter(q => procs.get(q).pc == "look")
    if (busy.size() > 0) {
      nondet q = busy.oneOf()
      any { hit(q), request(q), unreachable(q), finish(q) }
    } else if (luck == 0) any { cut(p), begin(p) }
    else if (luck == 1) any { kill(p), begin(p) }
    else if (luck == 2) any { refuse(p), begin(p) }
    else if (luck == 3) any { outage, begin(p), chunk(p) }
    else any { begin(p), chunk(p), publish(p) }
  }

  // ------------------------------------------------------------------ properties
  // a model that was loaded once is there for good: no further request, whatever happened meanwhile
  val cachedForGood = loads.indices().forall(j => loads.indices().forall(i =>
    (i < loads[j].since and loads[i].outcome == "ok" and loads[i].url == loads[j].url)
      implies (loads[j].outcome == "ok" and loads[j].requests == 0)))
  // only a process that saw both files complete returns a model
  val completeWhenOk = PROCS.forall(p => (procs.get(p).pc == "look") implies
    0.to(procs.get(p).file - 1).forall(f => cached.get((procs.get(p).url, f))))
  val okMeansCached = loads.indices().forall(i => loads[i].outcome == "ok" implies
    0.to(FILES - 1).forall(f => cached.get((loads[i].url, f))))
  val partsNotCounted = PROCS.forall(p => procs.get(p).got < CHUNKS)
}

module cacheSmall {
  import cache(PROCS = Set(1, 2), URLS = Set(1, 2), CHUNKS = 2, MAXLOADS = 3).*
}

module cacheFull {
  import cache(PROCS = Set(1, 2, 3), URLS = Set(1, 2, 3), CHUNKS = 3, MAXLOADS = 8).*
}
