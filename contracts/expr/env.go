//go:build verif

package expr

import "reflect"

// ---- what names denote (C22)

//gover:spec NewTypeResolverAdapter
//gover:props C22
//gover:inline
func specNewTypeResolverAdapter(r Resolver) *TypeResolverAdapter { return &TypeResolverAdapter{r} }

// The type of a name is the type of its value.
//
//gover:spec (*TypeResolverAdapter).TypeResolve
//gover:props C22
func specAdapterTypeResolve(r *TypeResolverAdapter, ident string) Type {
	if v := r.Resolver.Resolve(ident); v != nil {
		return v.Type()
	}
	return nil
}

//gover:spec NewMetaTypeResolver
//gover:props C22
//gover:inline
func specNewMetaTypeResolver() *MetaTypeResolver { return &MetaTypeResolver{} }

// A resolver that is added comes after the others.
//
//gover:spec (*MetaTypeResolver).AddResolver
//gover:props C22
func specMetaTypeAdd(r *MetaTypeResolver, n TypeResolver) { r.resolvers = append(r.resolvers, n) }

// The first answer that exists.
//
//gover:spec (*MetaTypeResolver).TypeResolve
//gover:props C22
func specMetaTypeResolve(r *MetaTypeResolver, ident string) Type {
	for i := 0; i < len(r.resolvers); i++ {
		if t := r.resolvers[i].TypeResolve(ident); t != nil {
			return t
		}
	}
	return nil
}

//gover:spec NewMetaResolver
//gover:props C22
//gover:inline
func specNewMetaResolver() *MetaResolver { return &MetaResolver{} }

//gover:spec (*MetaResolver).AddResolver
//gover:props C22
func specMetaAdd(r *MetaResolver, n Resolver) { r.resolvers = append(r.resolvers, n) }

//gover:spec (*MetaResolver).Resolve
//gover:props C22
func specMetaResolve(r *MetaResolver, ident string) Value {
	for i := 0; i < len(r.resolvers); i++ {
		if v := r.resolvers[i].Resolve(ident); v != nil {
			return v
		}
	}
	return nil
}

//gover:spec NewStructTypeResolver
//gover:props C22
func specNewStructTypeResolver(s interface{}) *StructTypeResolver {
	return &StructTypeResolver{TypeOf(s).(*StructType)}
}

//gover:spec (*StructTypeResolver).TypeResolve
//gover:props C22
func specStructTypeResolve(r *StructTypeResolver, ident string) Type {
	if f, ok := r.struc.FieldByName(ident); ok {
		return f.Type
	}
	return nil
}

//gover:spec NewStructResolver
//gover:props C22
//gover:inline
func specNewStructResolver(s reflect.Value) *StructResolver { return &StructResolver{s} }

//gover:spec (*StructResolver).Resolve
//gover:props C22
func specStructResolve(r *StructResolver, ident string) Value {
	f := r.struc.FieldByName(ident)
	if !f.IsValid() {
		return nil
	}
	return ValueOf(f.Interface())
}

//gover:spec NewMapTypeResolver
//gover:props C22
//gover:inline
func specNewMapTypeResolver(m map[string]Type) *MapTypeResolver { return &MapTypeResolver{m} }

//gover:spec (*MapTypeResolver).TypeResolve
//gover:props C22
func specMapTypeResolve(r *MapTypeResolver, ident string) Type { return r.m[ident] }

//gover:spec NewMapResolver
//gover:props C22
//gover:inline
func specNewMapResolver(m map[string]Value) *MapResolver { return &MapResolver{m} }

//gover:spec (*MapResolver).Resolve
//gover:props C22
func specMapResolve(r *MapResolver, ident string) Value { return r.m[ident] }

// The symbols of a package are exactly those it was given, each with the type
// of its value.
//
//gover:spec NewPackage
//gover:props C22
//gover:opaque
func specNewPackage(symbols map[string]Value) Package {
	types := map[string]Type{}
	for name, v := range symbols {
		types[name] = v.Type()
	}
	return Package{types: types, symbols: symbols}
}

//gover:spec (Package).Symbol
//gover:props C22
//gover:opaque
func specPackageSymbol(p Package, ident string) Value { return p.symbols[ident] }

//gover:spec (Package).Type
//gover:props C22
//gover:opaque
func specPackageType(p Package) Type { return &PackageType{symbols: p.types} }
