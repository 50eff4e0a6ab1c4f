var x = 1;
