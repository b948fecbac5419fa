//@ like image_size
//@ timeout 120
//@ defs -DDIM=1000
//@ bounded width and height of at most 1000; the thorough check has no bound (unit image_size)
