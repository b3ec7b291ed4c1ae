// element type whose special members are external: every behaviour the contracts allow must be handled
#pragma once
struct Val {
    long id;
    Val();
    Val( Val const&);
    Val( Val &&);
    Val & operator=( Val const&);
    Val & operator=( Val &&);
    ~Val();
};
