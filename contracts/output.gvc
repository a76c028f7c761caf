world disk: Seq<(S, S)>
world created: Seq<S>
world faults: Seq<GoErr>
type crossplane.Creator = Opq

model os.Getwd() = cwd(), e
  any e: GoErr
  set w.faults = fault(w.faults, e)
model os.MkdirAll(p, m) = e
  any e: GoErr
  set w.faults = fault(w.faults, e)
model os.Create(p) = f, e
  let f: Buf = Buf { data: sempty(), inf: false, name: p }
  any e: GoErr
  set w.created = if e is Nil { w.created.push(p) } else { w.created }
  set w.faults = fault(w.faults, e)
  note a created file is empty
model os.(*File).Write(*f, p) = n, e
  any n: int
  any e: GoErr
  any d: S
  assume e is Nil ==> d == p.s && n == p.s.len()
  set f.data = f.data + d
  set w.faults = fault(w.faults, e)
model os.(*File).Close(*f) = e
  any e: GoErr
  set w.disk = if e is Nil { w.disk.push((f.name, f.data)) } else { w.disk }
  set w.faults = fault(w.faults, e)
model crossplane.Creator.Create(c, p) = f, e
  let f: Buf = Buf { data: sempty(), inf: false, name: p }
  any e: GoErr
  set w.created = if e is Nil { w.created.push(p) } else { w.created }
  set w.faults = fault(w.faults, e)
  note a creator hands out an empty writer of its own for every name
model io.Closer.Close(*f) = e
  any e: GoErr
  set w.disk = if e is Nil { w.disk.push((f.name, f.data)) } else { w.disk }
  set w.faults = fault(w.faults, e)
model bytes.(*Buffer).Bytes(*b) = sl_of(b.data)
model bytes.TrimRightFunc(b, f) = Sl { s: trim_right_func(b.s, f), nn: b.nn }
  fresh
  note the bytes of a buffer are not read again once its text was taken

model strings.(*Builder).WriteByte(*b, c) = GoErr::Nil
  set b.data = b.data.push(c as u8)
model strings.(*Builder).Write(*b, p) = p.s.len() as int, GoErr::Nil
  set b.data = b.data + p.s

func crossplane.BuildFiles(payload, dir, options) (r)
  modifies options.Indent, options.extBuilders, w.disk, w.created, w.faults
  requires options.Indent >= 0 && all_wf(payload.Config.s)
  ensures @written r is Nil ==> w_n.disk == on_disk(w.disk, payload.Config.s, base_dir(dir), with_builders(options), payload.Config.s.len() as int) && w_n.created == names_on_disk(w.created, payload.Config.s, base_dir(dir), payload.Config.s.len() as int) && w_n.faults == w.faults
  ensures @stopped !(r is Nil) ==> w_n.faults == w.faults.push(r) && (exists|k: int| 0 <= k <= payload.Config.s.len() && w_n.disk == #[trigger] on_disk(w.disk, payload.Config.s, base_dir(dir), with_builders(options), k) && (w_n.created == names_on_disk(w.created, payload.Config.s, base_dir(dir), k) || k < payload.Config.s.len() && w_n.created == names_on_disk(w.created, payload.Config.s, base_dir(dir), k + 1)))
  entry lemma_disk(w, payload.Config.s, base_dir(dir), with_builders(options), 0);
  loop 0 ~ \[\]RegisterBuilder$
    invariant @builders options == (BuildOptions { extBuilders: reg_builders(options_0.extBuilders, rng0.s.subrange(0, ix0)), ..options_0 })
    tail lemma_builders(options_0.extBuilders, rng0.s, ix0);
    post assert(rng0.s.subrange(0, ix0) =~= rng0.s);
  loop 1 ~ \[\]Config$
    invariant @files w.disk == on_disk(w_0.disk, rng1.s, base_dir(dir_0), with_builders(options_0), ix1) && w.created == names_on_disk(w_0.created, rng1.s, base_dir(dir_0), ix1) && w.faults == w_0.faults
    invariant @options options == with_builders(options_0) || options == final_options(with_builders(options_0))
    head lemma_disk(w_0, rng1.s, base_dir(dir_0), with_builders(options_0), ix1); settled_options_build_the_same(rng1.s[ix1], with_builders(options_0));

func crossplane.BuildInto(payload, into, options) (r)
  modifies options.Indent, options.extBuilders, w.disk, w.created, w.faults
  requires options.Indent >= 0 && all_wf(payload.Config.s)
  ensures @written r is Nil ==> w_n.disk == handed_over(w.disk, payload.Config.s, options, payload.Config.s.len() as int) && w_n.created == names_asked(w.created, payload.Config.s, payload.Config.s.len() as int) && w_n.faults == w.faults
  ensures @stopped !(r is Nil) ==> w_n.faults == w.faults.push(r) && (exists|k: int| 0 <= k <= payload.Config.s.len() && w_n.disk == #[trigger] handed_over(w.disk, payload.Config.s, options, k) && (w_n.created == names_asked(w.created, payload.Config.s, k) || k < payload.Config.s.len() && w_n.created == names_asked(w.created, payload.Config.s, k + 1)))
  entry lemma_into(w, payload.Config.s, options, 0);
  loop 0
    invariant @files w.disk == handed_over(w_0.disk, rng0.s, options_0, ix0) && w.created == names_asked(w_0.created, rng0.s, ix0) && w.faults == w_0.faults
    invariant @options options == options_0 || options == final_options(options_0)
    head lemma_into(w_0, rng0.s, options_0, ix0); settled_options_build_the_same(rng0.s[ix0], options_0);

func crossplane.(*FileString).Write(fs, b) (n, e)
  modifies fs.w
  ensures @appended fs_n.w.data == fs.w.data + b.s && n == b.s.len() && e is Nil

func crossplane.(*FileString).Close(fs) (e)
  modifies fs.w
  ensures @newline fs_n.w.data == fs.w.data.push(10u8) && e is Nil

func crossplane.(*FileString).String(fs) (r)
  ensures @text r == fs.w.data

func crossplane.(*StringsCreator).Create(sc, file) (r, err)
  modifies sc.Files
  ensures @kept err is Nil && sc_n.Files.s.len() == sc.Files.s.len() + 1 && sc_n.Files.s.subrange(0, sc.Files.s.len() as int) == sc.Files.s && sc_n.Files.s.last() == Some(FileString { Name: file, w: buf_empty() }) && r == writer_of(sc_n.Files.s.last())

func crossplane.(*StringsCreator).Reset(sc)
  modifies sc.Files
  ensures @empty sc_n.Files.s.len() == 0

property C17
  roots crossplane.BuildFiles, crossplane.BuildInto, crossplane.Build, crossplane.(*FileString).Write, crossplane.(*FileString).Close, crossplane.(*FileString).String, crossplane.(*StringsCreator).Create, crossplane.(*StringsCreator).Reset
  specs tree.rs, quote.rs, build.rs, output.rs
