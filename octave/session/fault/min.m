% Stands in for Octave's min, which may run out of memory here.
function varargout = min(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("min", varargin{:});
end
