world table: Seq<Opq>
type fs.DirEntry = Opq
type *template.Template = Opq
model os.ReadFile(p) = sl_of(text_at(p)), read_err(p)
model regexp.(*Regexp).ReplaceAllString(r, s, t) = re_replace(r, s, t)
model regexp.(*Regexp).FindAllStringSubmatch(r, s, n) = found
  any found: Sl<Sl<S>>
  assume found == re_all(r, s) && (forall|i: int| 0 <= i < found.s.len() ==> (#[trigger] found.s[i]).s.len() == 3)
  note both expressions have two groups, and all matches are asked for
model strings.Split(s, sep) = Sl { s: split(s, sep), nn: true }
  fresh
model fs.DirEntry.IsDir(d) = is_dir(d)
model template.(*Template).Execute(t, wr, data) = e
  any e: GoErr
  set w.table = if e is Nil { w.table.push(data) } else { w.table }
  set w.faults = if e is Nil { w.faults } else { w.faults.push(e) }
  note the template renders the table it is given (it is not Go code)

func generator.masksFromFile(path) (directive2Masks, err)
  ensures @error (err is Nil) == file_ok(path)
  ensures @table err is Nil ==> directive2Masks.nn && has_defs(directive2Masks, file_defs(path))
  entry lemma_defs_in(blocks(text_at(path)), 0);
  loop 0 ~ \bblocks\b
    invariant @defs directive2Masks.nn && has_defs(directive2Masks, defs_in(rng0.s, ix0)) && all_known(rng0.s, ix0)
    head lemma_defs_in(rng0.s, ix0);
  loop 1 ~ \bsubBlocks\b
    snap d1 = defs_in(rng0.s, ix0)
    invariant @defs directive2Masks.nn && has_defs(directive2Masks, defs_of(d1, rng1.s, ix1)) && masks_known(rng1.s, ix1)
    head lemma_defs_of(d1, rng1.s, ix1);
  loop 2 ~ \bdirectiveMask\b
    snap c2 = directiveMask
    invariant @names directiveMask.nn && names_so_far(directiveMask.s, c2.s, ix2)
    head lemma_mask_table(trim_space(c2.s[ix2]));
    post assert(directiveMask.s =~= go_names(c2.s));
      lemma_add_def(directive2Masks, defs_of(d1, rng1.s, ix1), directiveName, directiveMask);

func generator.getMasksFromPath(path) (directive2Masks, err)
  freshresult
  ensures @error (err is Nil) == (tree_ok(walk_entries(path), walk_entries(path).len() as int) && tree_defs(walk_entries(path), walk_entries(path).len() as int).len() > 0)
  ensures @table err is Nil ==> directive2Masks.nn && has_defs(directive2Masks, tree_defs(walk_entries(path), walk_entries(path).len() as int))
  entry lemma_tree(walk_entries(path), 0);
  loop 0
    invariant @defs directive2Masks.nn && has_defs(directive2Masks, tree_defs(rng0, ix0)) && tree_ok(rng0, ix0)
    head lemma_tree(rng0, ix0);
    post lemma_empty_table(directive2Masks, tree_defs(rng0, ix0));
  loop 1 ~ ^range .*map\[string\]\[\]Mask$
    snap m1 = directive2Masks
    invariant @merged directive2Masks.nn && merged(directive2Masks, m1, rngm1, rng1, ix1)
    head lemma_before(rng1, ix1); assert(rngm1.m.contains_key(rng1[ix1]));
    post lemma_merged(directive2Masks, m1, rngm1, rng1, tree_defs(rng0, ix0), file_defs(rng0[ix0].path));

func generator.genFromSrcCode(codePath, writer, config) (r)
  modifies w.table, w.faults
  ensures @complete (r is Nil) == (tree_ok(walk_entries(codePath), walk_entries(codePath).len() as int) && tree_defs(walk_entries(codePath), walk_entries(codePath).len() as int).len() > 0 && w_n.faults == w.faults)
  ensures @selected r is Nil ==> tree_ok(walk_entries(codePath), walk_entries(codePath).len() as int) && (exists|m: Mp<S, Sl<Sl<S>>>| selected(m, tree_defs(walk_entries(codePath), walk_entries(codePath).len() as int), config) && w_n.table == w.table.push(#[trigger] rendered(m, config)))
  ensures @nothing !(r is Nil) ==> w_n.table == w.table
  before template.(*Template).Execute reveal(has_defs); lemma_no_filter(config_0.Filter); assert(selected(directive2Masks, tree_defs(walk_entries(codePath_0), walk_entries(codePath_0).len() as int), config_0));
  exit assert(w_n.faults.len() != w.faults.len() ==> w_n.faults != w.faults); if r is Nil { assert(w_n.table == w.table.push(rendered(directive2Masks, config_0))); assert(selected(directive2Masks, tree_defs(walk_entries(codePath_0), walk_entries(codePath_0).len() as int), config_0)); }
  loop 0
    snap m0 = directive2Masks
    invariant @filtered directive2Masks.nn && filtered(directive2Masks, m0, filter, rng0, ix0)
    head lemma_before(rng0, ix0); assert(rngm0.m.contains_key(rng0[ix0]));
    post lemma_before_all(rng0); lemma_keys(rngm0, rng0);
  loop 1
    snap m1 = directive2Masks
    invariant @overridden directive2Masks.nn && overridden(directive2Masks, m1, override_, rng1, ix1)
    head lemma_before(rng1, ix1); assert(rngm1.m.contains_key(rng1[ix1]));
    post lemma_before_all(rng1); lemma_keys(rngm1, rng1);

func generator.Generate(sourcePath, writer, config) (r)
  modifies w.table, w.faults
  ensures @complete (r is Nil) == (tree_ok(walk_entries(sourcePath), walk_entries(sourcePath).len() as int) && tree_defs(walk_entries(sourcePath), walk_entries(sourcePath).len() as int).len() > 0 && w_n.faults == w.faults)
  ensures @selected r is Nil ==> tree_ok(walk_entries(sourcePath), walk_entries(sourcePath).len() as int) && (exists|m: Mp<S, Sl<Sl<S>>>| selected(m, tree_defs(walk_entries(sourcePath), walk_entries(sourcePath).len() as int), config) && w_n.table == w.table.push(#[trigger] rendered(m, config)))
  ensures @nothing !(r is Nil) ==> w_n.table == w.table

model strings.Cut(s, sep) = cut_before(s, sep), cut_after(s, sep), cut_found(s, sep)

model json.Unmarshal(d, *v) = json_err(d.s)
  set v = json_list(d.s)
  note decoding a list of strings

func generator.(*Filters).UnmarshalJSON(fs, data) (r)
  modifies fs
  ensures @error (r is Nil) == (json_err(data.s) is Nil)
  ensures @names r is Nil ==> fs_n.nn && (forall|d: S| #[trigger] fs_n.m.contains_key(d) == (mp_live(fs).contains_key(d) || json_list(data.s).s.contains(d)))
  loop 0
    invariant @names fs.nn && (forall|d: S| #[trigger] fs.m.contains_key(d) == (mp_live(fs_0).contains_key(d) || before(rng0.s, ix0, d)))
    head assert(rng0.s.subrange(0, ix0 + 1) =~= rng0.s.subrange(0, ix0).push(rng0.s[ix0]));
    post lemma_before_all(rng0.s);

func main.(*filterFlag).Set(f, value) (r)
  modifies f.filter
  ensures @added r is Nil && f_n.filter.nn && f_n.filter.m == mp_live(f.filter).insert(value, ())

func main.(*overrideItem).UnmarshalText(item, text) (r)
  modifies item.directive, item.masks
  ensures @error (r is Nil) == override_ok(text.s)
  entry lemma_masks_to(override_lists(text.s), 0); assert(item.masks.s =~= item.masks.s + Seq::<Sl<S>>::empty());
  ensures @item r is Nil ==> item_n.directive == override_name(text.s) && item_n.masks.s == item.masks.s + override_masks(text.s)
  loop 0
    invariant @masks item.directive == override_name(text_0.s) && item.masks.s == item_0.masks.s + masks_to(rng0.s, ix0) && lists_ok(rng0.s, ix0)
    head lemma_masks_to(rng0.s, ix0);
    post assert(item.masks.s =~= item_0.masks.s + override_masks(text_0.s));
  loop 1
    invariant @names directiveMask.nn && trimmed_to(directiveMask.s, rng1.s, ix1)
    post assert(directiveMask.s =~= trimmed(rng1.s));

func main.(*override).Set(ov, value) (r)
  modifies ov
  ensures @error (r is Nil) == override_ok(value)
  ensures @set r is Nil ==> ov_n.nn && ov_n.m.contains_key(override_name(value)) && ov_n.m[override_name(value)].s == override_masks(value)
  ensures @others r is Nil ==> forall|d: S| d != override_name(value) ==> #[trigger] ov_n.m.contains_key(d) == mp_live(ov).contains_key(d) && (ov_n.m.contains_key(d) ==> ov_n.m[d] == ov.m[d])

property C20
  roots generator.masksFromFile, generator.getMasksFromPath, generator.genFromSrcCode, generator.Generate, generator.(*Filters).UnmarshalJSON, main.(*filterFlag).Set, main.(*overrideItem).UnmarshalText, main.(*override).Set
  specs generate.rs
