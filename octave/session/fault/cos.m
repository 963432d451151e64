% Stands in for Octave's cos, which may run out of memory here.
function varargout = cos(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("cos", varargin{:});
end
