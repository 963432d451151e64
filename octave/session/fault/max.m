% Stands in for Octave's max, which may run out of memory here.
function varargout = max(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("max", varargin{:});
end
