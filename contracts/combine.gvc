func crossplane.performIncludes(old, fromfile, block) (c)
  requires finite_includes(old, block.s)
  requires [C14] wfs(block.s) && wf_configs(old)
  ensures @expansion read_all(c) == expanded(old, fromfile, block.s)
  ensures @closed [*] c.closed
  decreases level(old, block.s), dsizes_to(block.s, block.s.len() as int)
  loop 0 ~ ^(range|for) .*: Directives$
    isnap c0 = c
    invariant @open [*] !c.closed
    invariant @sent read_all(c) == ex_block(old, fromfile, rng0.s, ix0, level(old, rng0.s))
    head [C14] assert(wf(rng0.s[ix0]));
    head lemma_ex(old, fromfile, rng0.s, ix0); lemma_ex_at(old, fromfile, rng0.s, ix0, level(old, rng0.s));
      lemma_then(read_all(c), no_ex(), no_ex()); lemma_sends(c.buf);
  loop 1 ~ ^range performIncludes\(.*\bdir\.Block\)
    invariant @block nblock.nn && took(rng1.buf, ix1) == (Ex { ds: nblock.s, err: GoErr::Nil }) && c == c0
    invariant @open1 [C14] !c.closed && rng1.closed
    head lemma_took_at(rng1.buf, ix1); lemma_sends(c.buf);
  loop 2 ~ \[\]int$
    snap c2 = c
    invariant @open2 [*] !c.closed
    invariant @includes read_all(c) == then(read_all(c2), ex_incs(old, fromfile, rng0.s[ix0]->0, ix2, level(old, rng0.s)))
    head lemma_incs_at(old, fromfile, rng0.s[ix0]->0, ix2, level(old, rng0.s), read_all(c2)); lemma_sends(c.buf);
      if has_conf(old, rng2.s[ix2]) { lemma_ex_inc(old, rng0.s, ix0, ix2); }
  loop 3 ~ ^range performIncludes\(.*\.Parsed\)
    snap c3 = c
    invariant @open3 [*] !c.closed
    invariant @config read_all(c) == then(read_all(c3), took(rng3.buf, ix3))
    head lemma_took_at(rng3.buf, ix3); lemma_took(c.buf, rng3.buf[ix3]); lemma_then(read_all(c3), took(rng3.buf, ix3), took1(rng3.buf[ix3]));

func crossplane.combineConfigs(old) (r, err)
  requires [C14] wf_configs(old)
  requires old.Config.s.len() > 0 ==> finite_includes(old, old.Config.s[0].Parsed.s)
  ensures @combined combines_to(old, r, err)
  loop 0 ~ \[\]Config$
    snap start = combined
    invariant @errors combined == (Config { Errors: Sl { s: all_errs(rng0.s, ix0), nn: true }, Status: if any_failed(rng0.s, ix0) { lit!("failed") } else { lit!("ok") }, ..start })
  loop 1 ~ ^range performIncludes
    snap mid = combined
    invariant @parsed combined == (Config { Parsed: Sl { s: took(rng1.buf, ix1).ds, nn: true }, ..mid }) && took(rng1.buf, ix1).err is Nil
    head lemma_took_at(rng1.buf, ix1);
  exit if r is Some && old.Config.s.len() > 0 { assert(combined_of(old).Config.s =~= r->0.Config.s); }

func crossplane.(*Payload).Combined(p) (r, err)
  requires [C14] wf_configs(p)
  trusted C05, C06, C07, C08, C09, C18, C22
  requires [C10, C11] p.Config.s.len() > 0 ==> finite_includes(p, p.Config.s[0].Parsed.s)
  ensures @combined [C10, C11] combines_to(p, r, err)

property C11
  roots crossplane.(*Payload).Combined
  specs lex.rs, tree.rs, analyze.rs, combine.rs
