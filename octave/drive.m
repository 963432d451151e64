% Runs the calls of one simulated history: drive(list of calls file, result file).
function drive(infile, outfile)
  global SIM_S SIM_P SIM_X SIM_N SIM_LIM SIM_FAIL SIM_CALLS
  fi = fopen(infile, "r");
  fo = fopen(outfile, "w");
  while true
    name = fgetl(fi);
    if ! ischar(name)
      break
    end
    args = num2cell(sscanf(fgetl(fi), "%f")');
    c = sscanf(fgetl(fi), "%f")';
    SIM_P = 0; SIM_N = 0; SIM_CALLS = 0;
    if c(1) >= 0
      SIM_X = c(1);
    end
    SIM_LIM = c(2);
    SIM_FAIL = c(3);
    SIM_S = sscanf(fgetl(fi), "%f");
    rp = pwd;
    try
      m = feval(name, args{:});
      fprintf(fo, "ret %d %d %d", ndims(m), rows(m), columns(m));
      fprintf(fo, " %.17g", double(m'));
      fprintf(fo, " ; %d %d\n", SIM_N, strcmp(rp, pwd));
    catch e
      fprintf(fo, "exc %s\n", strrep([e.identifier " " e.message], "\n", " "));
    end
  end
  fclose(fo);
end
