% Stands in for Octave's rand: hands out the stream the simulator decided, then a long-period fair one.
function x = rand(varargin)
  global SIM_S SIM_P SIM_X SIM_N SIM_LIM SIM_FAIL SIM_CALLS
  if nargin >= 1 && ischar(varargin{1})
    x = [];
    return
  end
  SIM_CALLS++;
  if SIM_FAIL > 0 && SIM_CALLS == SIM_FAIL
    error("Octave:some-id", "out of memory or dimension too large for Octave's index type");
  end
  if nargin == 0
    d = [1 1];
  elseif nargin == 1
    d = varargin{1};
    if isscalar(d)
      d = [d d];
    end
  else
    d = [varargin{:}];
  end
  d = max(floor(d), 0);
  n = prod(d);
  SIM_N += n;
  if SIM_N > SIM_LIM
    error("SIM:hang", "no progress");
  end
  k = min(n, numel(SIM_S) - SIM_P);
  x = zeros(n, 1);
  if k > 0
    x(1:k) = SIM_S(SIM_P + 1:SIM_P + k);
    SIM_P += k;
  end
  for i = k + 1:n
    SIM_X = mod(SIM_X * 16807, 2147483647);
    a = SIM_X;
    SIM_X = mod(SIM_X * 16807, 2147483647);
    x(i) = (a - 1 + SIM_X / 2147483647) / 2147483646;
    if x(i) >= 1
      x(i) = 1 - 2 ^ -53;
    end
  end
  x = reshape(x, d);
end
