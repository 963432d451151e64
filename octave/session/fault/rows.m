% Stands in for Octave's rows, which may run out of memory here.
function varargout = rows(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("rows", varargin{:});
end
