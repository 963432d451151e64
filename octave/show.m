% Shows point sets and random subsets in one session: show(list of calls file, result file).
function show(infile, outfile)
  global SIM_S SIM_P SIM_X SIM_N SIM_LIM SIM_FAIL SIM_CALLS
  graphics_toolkit("gnuplot");
  figure("visible", "off");
  fi = fopen(infile, "r");
  fo = fopen(outfile, "w");
  while true
    l = fgetl(fi);
    if ! ischar(l)
      break
    end
    v = sscanf(l, "%f")';
    n = v(1:2); fraction = v(3);
    SIM_P = 0; SIM_N = 0; SIM_CALLS = 0; SIM_X = v(4); SIM_LIM = 1e7; SIM_FAIL = v(5);
    p = {};
    for j = 1:2
      s = sscanf(fgetl(fi), "%f")';
      p{j} = reshape(s, 4, n(j))';
    end
    SIM_S = sscanf(fgetl(fi), "%f");
    q = p;
    try
      if v(6)
        displayPoints(p{1}, p{2});
      else
        displayPointsRandomSubset(p{1}, p{2}, fraction);
      end
      fprintf(fo, "ret %d %d", isequal(p, q), numel(get(0, "children")));
      for h = findobj(gca, "type", "line")'
        x = [get(h, "xdata")(:), get(h, "ydata")(:), get(h, "zdata")(:)];
        x = x(! any(isnan(x), 2), :);
        fprintf(fo, " ; %s %s %d", get(h, "marker"), strrep(num2str(get(h, "color")), "  ", ","), rows(x));
        fprintf(fo, " %.17g", x');
      end
      fprintf(fo, "\n");
    catch e
      fprintf(fo, "exc %s\n", strrep(e.message, "\n", " "));
    end
  end
  fclose(fo);
end
