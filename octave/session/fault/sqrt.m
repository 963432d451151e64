% Stands in for Octave's sqrt, which may run out of memory here.
function varargout = sqrt(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("sqrt", varargin{:});
end
