erase ParseError.What
erase ParseError.Statement
# Models of library functions (assumed).
model strings.HasPrefix(s, p) = has_prefix(s, p)
model strings.HasSuffix(s, p) = has_suffix(s, p)
model strings.TrimPrefix(s, p) = trim_prefix(s, p)
model strings.TrimSuffix(s, p) = trim_suffix(s, p)
model strings.TrimSpace(s) = trim_space(s)
model strings.TrimLeftFunc(s, f) = trim_left_func(s, f)
model strings.TrimRightFunc(s, f) = trim_right_func(s, f)
model strings.TrimLeft(s, f) = trim_left_set(s, f)
model strings.TrimRight(s, f) = trim_right_set(s, f)
model strings.ToLower(s) = to_lower(s)
model strings.ReplaceAll(s, a, b) = replace_all(s, a, b)
model strings.Join(a, sep) = str_join(a.s, sep)
model strings.Contains(s, sub) = str_contains(s, sub)
model strings.Repeat(s, n) = str_repeat(s, n)
  requires n >= 0
