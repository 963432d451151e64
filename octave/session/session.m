% Runs one simulated history of calls in one session: session(list of steps, result file, scratch folder).
function session(infile, outfile, scratch)
  global SIM_AT SIM_COUNT
  SIM_AT = 0; SIM_COUNT = 0;
  ops = sim_read(infile);
  fo = fopen(outfile, "w");
  % each call alone, in a copy of the session in which nothing has been called yet
  for k = 1:numel(ops)
    o = ops{k};
    if ! strcmp(o.kind, "call")
      continue
    end
    t = [scratch "/alone"];
    pid = fork();
    if pid == 0
      [r, v, n] = sim_call(o, 0);
      f = fopen(t, "w");
      fprintf(f, "%d\n%s\n", n, r);
      fclose(f);
      kill(getpid(), SIG.KILL);
    end
    waitpid(pid);
    f = fopen(t, "r");
    ops{k}.n = str2double(fgetl(f));
    ops{k}.alone = fgetl(f);
    fclose(f);
  end
  for k = 1:numel(ops)
    o = ops{k};
    if ! strcmp(o.kind, "call")
      sim_env(o, scratch);
      fprintf(fo, "env\n\n\n\n");
      continue
    end
    at = 0;
    if o.fail >= 0
      at = 1 + floor(o.fail * o.n);
    end
    if o.seed >= 0
      rand("twister", o.seed);
    end
    SIM_AT = 0;
    a = sim_state(o.seed < 0);
    [r, vars, n] = sim_call(o, at);
    fired = at > 0 && n >= at;
    SIM_AT = 0;
    b = sim_state(o.seed < 0);
    d = "";
    for f = fieldnames(a)'
      if ! isequaln(a.(f{1}), b.(f{1}))
        d = [d " " f{1}];
      end
    end
    fprintf(fo, "%d %s\n%s\n%s\n%s\n", fired, vars, r, o.alone, d);
  end
  fclose(fo);
end

function ops = sim_read(infile)
  fi = fopen(infile, "r");
  ops = {};
  while true
    l = fgetl(fi);
    if ! ischar(l)
      break
    end
    w = strsplit(l, " ");
    o = struct("kind", w{1});
    if strcmp(w{1}, "call")
      o.name = w{2};
      v = str2double(w(3:end));
      o.nout = v(1); o.fail = v(3); o.seed = v(4);
      o.args = {};
      for j = 1:v(2)
        k = fgetl(fi);
        s = sscanf(fgetl(fi), "%f")';
        x = reshape(s(3:end), s(2), s(1))';
        switch k
          case "s"
            x = single(x);
          case "i"
            x = int32(x);
          case "c"
            x = char(x);
          case "x"
            x = {x};
          case "r"
            x = x + 0i;
        end
        o.args{end+1} = x;
      end
    else
      o.what = {w{2}, strjoin(w(3:end), " ")};
    end
    ops{end+1} = o;
  end
  fclose(fi);
end

% The session's own doings between the calls
function sim_env(o, scratch)
  switch o.kind
    case "chdir"
      cd([scratch "/" o.what{1}]);
    case "format"
      format(o.what{1});
    case "seed"
      rand("twister", str2double(o.what{1})); randn("twister", str2double(o.what{1}));
    case "global"
      eval(sprintf("global %s; %s = %s;", o.what{1}, o.what{1}, o.what{2}));
    case "warn"
      warning(o.what{1}, o.what{2});
    case "env"
      setenv(o.what{1}, o.what{2});
    case "precision"
      output_precision(str2double(o.what{1}));
  end
end

% A caller with variables of its own.  vars: what happened to them and to the arguments.
function [r, vars, SIM_N] = sim_call(o, at)
  global SIM_AT SIM_COUNT
  G = 1; m = 2; R = 3; array = 4; mass = 5; x = "x"; tem = {6}; ctr = 7; eps0 = 8; k = 9; lib = 10; SIM = 11;
  SIM_ARGS = o.args;
  SIM_OUT = cell(1, o.nout);
  vars = "";
  if o.seed >= 0 && at == 0
    rand("twister", o.seed);
  end
  SIM_COUNT = 0; SIM_AT = at;
  try
    [SIM_OUT{:}] = feval(o.name, o.args{:});
    SIM_AT = 0; SIM_N = SIM_COUNT;
    r = ["ret" sim_text(SIM_OUT)];
  catch e
    SIM_AT = 0; SIM_N = SIM_COUNT;
    r = ["exc " strrep(e.message, "\n", " ")];
  end
  if G != 1 || m != 2 || R != 3 || array != 4 || mass != 5 || ! strcmp(x, "x") || ! isequal(tem, {6}) || ctr != 7 || eps0 != 8 || k != 9 || lib != 10 || SIM != 11
    vars = "variables";
  end
  if ! isequaln(SIM_ARGS, o.args)
    vars = "arguments";
  end
  w = setdiff(who, {"G", "m", "R", "array", "mass", "x", "tem", "ctr", "eps0", "k", "lib", "SIM", "SIM_ARGS", "SIM_OUT", "SIM_AT", "SIM_COUNT", "SIM_N", "o", "at", "r", "vars", "e", "ans"});
  if ! isempty(w)
    vars = "new-variables";
  end
end

function t = sim_text(c)
  t = "";
  for j = 1:numel(c)
    v = c{j};
    if ! isnumeric(v)
      t = [t " | " class(v)];
      continue
    end
    t = [t " | " class(v) sprintf(" %d", size(v)) " :" sprintf(" %.17g", double(real(v(:))))];
    if iscomplex(v)
      t = [t " i" sprintf(" %.17g", double(imag(v(:))))];
    end
  end
end

function s = sim_state(rng)
  s.path = path;
  s.directory = pwd;
  [a, b, c] = format();
  s.format = {a, b, c, output_precision, fixed_point_format, split_long_rows, print_empty_dimensions};
  s.warnings = warning;
  if rng
    s.random = {rand("twister"), randn("twister"), rande("twister")};
  else
    s.random = {randn("twister"), rande("twister")};
  end
  s.globals = sort(who("global"));
  for j = 1:numel(s.globals)
    n = s.globals{j};
    if ! strncmp(n, "SIM_", 4)
      s.(["value_of_" n]) = sim_global(n);
    end
  end
  s.files = fopen("all");
  s.figures = get(0, "children");
  s.settings = {page_screen_output, more_state, crash_dumps_octave_core, ignore_function_time_stamp, max_recursion_depth, struct_levels_to_print, beep_on_error, debug_on_error, debug_on_warning, print_struct_array_contents, PS4, getenv("HOME"), getenv("TZ"), getenv("SIM_A"), nproc};
  m = umask(0);
  umask(m);
  s.umask = m;
  s.stopwatch = 0;
  try
    toc;
    s.stopwatch = 1;
  end
end

function v = more_state
  v = page_screen_output;
end

function v = sim_global(SIM_name)
  eval(["global " SIM_name "; v = " SIM_name ";"]);
end
