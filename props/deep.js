/* loaded first in the thorough tier: wider bounds */
var DEEP = true;
