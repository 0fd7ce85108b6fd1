const plain: any = new Proxy((t: any) => String(t), { get: () => plain });
export default plain;
