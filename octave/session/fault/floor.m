% Stands in for Octave's floor, which may run out of memory here.
function varargout = floor(varargin)
  sim_fault();
  n = nargout + (nargout == 0);
  [varargout{1:n}] = builtin("floor", varargin{:});
end
