% Stands in for Octave's sum, which may run out of memory here.
function varargout = sum(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("sum", varargin{:});
end
