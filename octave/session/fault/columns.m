% Stands in for Octave's columns, which may run out of memory here.
function varargout = columns(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("columns", varargin{:});
end
